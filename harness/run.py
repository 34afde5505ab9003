"""Entry point of every check: run.py <property>."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

TABLE = {
    'E02': ('model_checking', 'checks.formats', ()),
    'T06': ('model_checking', 'checks.types', ()),
    'E01': ('model_checking', 'checks.positions', ()),
    'S01': ('model_checking', 'checks.service_conc', ('S01',)),
    'S02': ('model_checking', 'checks.history', ()),
    'S03': ('model_checking', 'checks.endings', ()),
    'S04': ('model_checking', 'checks.service_conc', ('S04',)),
    'S05': ('model_checking', 'checks.editor', ()),
    'S06': ('model_checking', 'checks.config', ()),
    'S07': ('model_checking', 'checks.snippet', ()),
    'T01': ('model_checking', 'checks.exec_conf', ('T01',)),
    'T02': ('model_checking', 'checks.exec_conf', ('T02',)),
    'T03': ('model_checking', 'checks.exec_conf', ('T03',)),
    'T04': ('model_checking', 'checks.exec_conf', ('T04',)),
    'T05': ('model_checking', 'checks.exec_conf', ('T05',)),
    'T09': ('model_checking', 'checks.selection', ()),
    'T08': ('model_checking', 'checks.wellformed', ()),
    'T10': ('model_checking', 'checks.exec_conf', ('T10',)),
    'T07': ('model_checking', 'checks.contracts', ()),
}

if __name__ == '__main__':
    prop = sys.argv[1]
    level, mod, args = TABLE[prop]
    sys.exit(vlib.run_check(prop, level, lambda c: importlib.import_module(mod).run(c, *args)))
