#!/usr/bin/env python3
"""checks/run.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, tables
check.main(tables.TABLE)
