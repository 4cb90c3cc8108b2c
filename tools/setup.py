"""setup_cmd: compile the Java evaluators of the specification's given operators."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
core.build_java(os.path.join(core.VERIF, 'build'))
