import importlib
CHECKS = {}
for m in ('suite_hdb', 'suite_coll', 'suite_an', 'suite_life', 'suite_rel', 'suite_parts', 'suite_if', 'suite_print', 'suite_bind', 'suite_log', 'suite_oom'): CHECKS.update(importlib.import_module(m).CHECKS)
