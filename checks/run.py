#!/usr/bin/env python3
"""run.py ID...: decide properties; exit 0 or 1 (+ VIOLATION line), never anything else."""
import importlib
import os
import sys
import traceback
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def one(pid):
    mod = importlib.import_module('props.' + pid.lower())
    ctx = core.Ctx(pid)
    try:
        mod.check(ctx)
        if getattr(mod, 'SPECIAL', False):
            again(mod, ctx)
    except core.Unbuildable as e:
        print(str(e)[-1500:])
        ctx.fail('build', 'the tree does not build for analysis: %s' % str(e)[-600:])
    except Exception as e:      # fail closed
        traceback.print_exc(file=sys.stdout, limit=-6)
        ctx.fail('analysis', 'the analysis could not establish the property: %r' % (e,))
    return ctx.finish(mod.LEVEL, mod.RULE, mod.TRUSTED)


def again(mod, ctx):
    """further rounds with the words the code looks for in place of unknown ones"""
    import lines
    cov = dict(ctx.cov)
    todo = list(lines.rounds())
    for w in todo:
        if os.environ.get('VERIF_DEBUG'):
            print('special', sorted(w.items())[:12])
        lines.WORDS.update(w)
        try:
            mod.check(ctx)
        finally:
            lines.WORDS.clear()
    ctx.cov.update(cov)
    ctx.cov['rounds_with_special_words'] = len(todo)


def main():
    rc = 0
    for pid in sys.argv[1:]:
        rc |= one(pid)
    sys.stdout.flush()
    os._exit(1 if rc else 0)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(1)
