"""Common shape of a property check."""
from .. import engine


class Prop(object):
    id = None
    title = ''
    quick_n = 200
    thorough_n = 3000
    timeout = 120.0
    rule = ''
    level = 'exploration'
    state_measure = ('(step number, number-of-elements class and set of element status codes per '
                     'container) reached, hashed')
    fault_kinds = ()
    real = 'gnome (all Python and native code of /repo/py_gnome) as built from the working tree'
    stub = ('gridded (not installed here): a stand-in with real 1-d Time interpolation and no '
            'gridded fields')
    assumptions = ()

    def gen(self, rng, index):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        return engine.generic_shrinks(case)

    def known(self, case, res):
        """signature of a violation, matched against known_findings.json"""
        return res.get('kind')
