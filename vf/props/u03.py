"""U03: results do not depend on how input arrays are stored."""
from vf.core import Registry
from vf import storage

reg = Registry('U03', 'Every operation of a table over all modules runs twice with the same numbers: once with C-ordered float64 arrays, once with '
               'all or one of its arrays in another memory order, strided, reversed, byte-swapped, unaligned, read-only or integer typed. '
               'Results, written files and failures must agree.')


@reg.scenario(quick=2400)
def crys_ops(ctx):
    storage.storage(ctx, storage.ops('crys'))


@reg.scenario(quick=1200)
def num_ops(ctx):
    storage.storage(ctx, storage.ops('num'))


@reg.scenario(quick=800)
def signal_ops(ctx):
    storage.storage(ctx, storage.ops('signal'))


@reg.scenario(quick=700)
def fit_ops(ctx):
    storage.storage(ctx, storage.ops('fits'))


@reg.scenario(quick=500)
def file_ops(ctx):
    storage.storage(ctx, storage.ops('io', 'files'))
