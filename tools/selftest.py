"""setup_cmd: everything is interpreted, so setup only proves that the code under test can be imported offline."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vrt import boot  # noqa

boot.boot()
import computing.d_table  # noqa
import federation.transfer_inst  # noqa
import ml.tree.hetero_secureboosting_tree_guest  # noqa
import ml.tree.hetero_secureboosting_tree_host  # noqa
print("setup ok")
