#!/usr/bin/env python3
"""Entry point of every check: run.py <property> [--tier quick|thorough]."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from rnstatic import registry
from rnstatic.framework import main
sys.exit(main(sys.argv, registry.CHECKS))
