"""Builds the C++ exporter and the resolved program once (a cache; every check rebuilds what is missing)."""
from wodlint import cxxload

if __name__ == '__main__':
  p = cxxload.program_json()
  print(len(p['functions']), 'functions resolved')
