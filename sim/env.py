"""Process environment of the simulator: pins every ambient source of nondeterminism before TensorFlow starts and
imports HGQ from /repo's working tree.

Seams owned here (see DESIGN.md):
  * op-level parallelism: inter/intra-op thread pools of size 1, OMP 1, no GPU;
  * tf.function: executed eagerly, line by line, so that the simulator sees (and can interrupt / preempt at) every line of HGQ;
    a run may opt into real graph/XLA execution with `graph_mode()`;
  * string-to-activation lookup: tf_keras (pulled in by qkeras) and keras 2.15 register the same public names in TensorFlow; whichever is
    imported last wins.  Upstream's supported TensorFlow has only one Keras, so tf_keras is aliased to keras here.
"""
import logging
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ['CUDA_VISIBLE_DEVICES'] = '-1'
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['TF_ENABLE_ONEDNN_OPTS'] = '0'
os.environ['TF_NUM_INTEROP_THREADS'] = '1'
os.environ['TF_NUM_INTRAOP_THREADS'] = '1'
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

import hgq_tf_compat  # noqa: E402,F401  (venv shim; must precede tensorflow)
import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402

tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.get_logger().setLevel('ERROR')
logging.disable(logging.WARNING)
tf.config.run_functions_eagerly(True)

import keras  # noqa: E402

sys.modules.setdefault('tf_keras', keras)
sys.path.insert(0, os.path.join(REPO, 'src'))
import HGQ  # noqa: E402
import HGQ.layers as L  # noqa: E402
import HGQ.proxy as P  # noqa: E402
import HGQ.utils.utils as U  # noqa: E402
from HGQ.layers.base import ABSBaseLayer, HLayerBase  # noqa: E402

warnings.filterwarnings('ignore')
SRC = os.path.join(os.path.realpath(REPO), 'src', 'HGQ') + os.sep
assert os.path.realpath(HGQ.__file__).startswith(SRC), HGQ.__file__

FACTORY_KQ = dict(HGQ.get_default_kq_conf())
FACTORY_PAQ = dict(HGQ.get_default_paq_conf())


def process_reset():
    """What a fresh interpreter would start with: factory defaults, no layer-name counters, fixed global seeds."""
    keras.backend.clear_session()
    HGQ.set_default_kq_conf(dict(FACTORY_KQ))
    HGQ.set_default_paq_conf(dict(FACTORY_PAQ))
    tf.config.run_functions_eagerly(True)
    tf.random.set_seed(0)
    np.random.seed(0)
    import random
    random.seed(0)


class graph_mode:
    def __enter__(self):
        tf.config.run_functions_eagerly(False)

    def __exit__(self, *a):
        tf.config.run_functions_eagerly(True)
