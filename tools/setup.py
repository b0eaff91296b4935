"""Builds the AST exporter and the drivers ahead of the checks (each check also builds what is missing)."""
import os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'tools'))
import cxxbuild
from vc import extract
extract.exporter()
for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
    cxxbuild.build(c['property'])
print('ok')
