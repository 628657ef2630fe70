#!/usr/bin/env python3
"""python3 check.py <property>: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import lib
import checks_radial, checks_sphere, checks_grid, checks_evolve, checks_run, checks_launch, checks_build, checks_team, checks_life, checks_symmetry
CHECKS = {}
for m in (checks_radial, checks_sphere, checks_grid, checks_evolve, checks_run, checks_launch, checks_build, checks_team, checks_life, checks_symmetry): CHECKS.update(m.CHECKS)
if __name__ == '__main__':
    lib.main(CHECKS)
