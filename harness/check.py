import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import checks_eval
import checks_reg
import checks_load
import checks_doc
import checks_session
import checks_ctx
import checks_box
import checks_vocab
import checks_types
import checks_back
import checks_edit
import checks_ctxobj
import checks_plug

CHECKS = dict(checks_eval.CHECKS)
for m in (checks_reg, checks_load, checks_doc, checks_session, checks_ctx, checks_box, checks_vocab, checks_types, checks_back, checks_edit, checks_ctxobj, checks_plug):
    CHECKS.update(m.CHECKS)

if __name__ == '__main__':
    lib.main(CHECKS)
