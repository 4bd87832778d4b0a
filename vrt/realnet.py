"""The transport over the real loopback interface: reads a case on stdin, prints what each party received (run by C13)."""
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vrt import boot  # noqa

boot.boot(fake_net=False)
from checks import c13  # noqa


def main():
    import socket
    from federation.transfer_inst import TransferInstGuest, TransferInstHost
    cfg = json.load(sys.stdin)
    s = socket.socket()
    s.bind(("", 0))
    port = s.getsockname()[1]
    s.close()
    logs, failed = {}, []
    part = {"host%d" % i: [] for i in range(cfg["hosts"])}

    def guest():
        logs["guest"] = c13.play_guest(cfg, TransferInstGuest(port, cfg["hosts"]))

    def host(i):
        for _ in range(2000):
            try:
                tr = TransferInstHost("127.0.0.1", port)
                break
            except OSError:
                time.sleep(.01)
        try:
            c13.play_host(cfg, tr, i, part["host%d" % i])
            logs["host%d" % i] = part["host%d" % i]
        except OSError:         # this machine's network, or another party is gone
            raise
        except Exception as e:
            failed.append("host %d failed with %.200r" % (i, e))
    ts = [threading.Thread(target=guest, daemon=True)]
    for t in ts:
        t.start()
    for i in range(cfg["hosts"]):
        ts.append(threading.Thread(target=host, args=(i,), daemon=True))
        ts[-1].start()
    end = time.monotonic() + 60
    while any(t.is_alive() for t in ts) and not failed and time.monotonic() < end:
        time.sleep(.01)
    whole = len(logs) == cfg["hosts"] + 1
    bad = (failed or [c13.compare(cfg, logs if whole else part, part=not whole)])[0]
    print(json.dumps(dict(done=len(logs), bad=bad)))
    sys.stdout.flush()
    os._exit(0)


main()
