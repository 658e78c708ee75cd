"""C23: anonymization changes nothing else."""
from props import anon

LEVEL = 'other'
RULE = ('masked_clone of attributes, media sections and sessions is analysed on symbolic values of every attribute form and on '
        'descriptions with repeated sections, attributes and bandwidths; on every path each field outside the list of sensitive '
        'fields must be the term of the original, each list must have its length and order, and each enum its variant')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/', 'the list of sensitive fields in checks/props/anon.py']


def check(ctx):
    anon.run(ctx, 'C23')
