"""C17: spurious edges = estimated edges missing from the declared prior structure; none without one."""
NOTE = 'contracts/c17.py: spurious_edges for any estimated graph over the labels and any declared structure. networkx.difference as axiomatised.'

from .common import *


def run(ctx):
    for cls in ('StructureConstraintBasedEstimator', 'StructureScoreBasedEstimator'):
        def s(E, I, cls=cls):
            sp, env = sample_path(E, I)
            return estimator(E, I, cls, sp, env), [], {}, env

        def p(E, I, env, out):
            ne, ea, eb, cgP = [env[k] for k in 'ne ea eb cgP'.split()]
            a, b = E.fresh(Lbl, 'a'), E.fresh(Lbl, 'b')
            prior = mk_any(lambda k: And(ea(z(k)) == a, eb(z(k)) == b), ne)
            est = Select(Select(cgP, b), a)
            has = pairs_member(E, I, out, a, b)
            E.oblige(imp(has, And(ne > 0)), 'without a prior structure there are no spurious edges')
            E.oblige(imp(has, And(est, Not(zb(prior)))), 'a spurious edge is estimated and not in the prior structure')
            E.oblige(imp(And(ne > 0, est, Not(zb(prior))), has), 'every estimated edge missing from the prior structure is spurious')
            g = env['est'].d['_complete_graph']
            E.oblige(iff(g.edge(a, b), est), 'the estimated graph is not modified')
            es = env['st'].d['_edges_list']
            E.oblige(band(eq(es.n, ne), all_in(lambda k: veq(es.get(k), (ea(z(k)), eb(z(k)))), ne)), 'the prior structure is not modified')
        ctx.verify('StructureEstimator.spurious_edges', s, p, label=cls + '.spurious_edges')

        def p_has(E, I, env, out):
            E.oblige(iff(out, env['ne'] > 0), 'a prior structure is declared when there are edges')
    ctx.verify('SamplePath.has_prior_net_structure', lambda E, I: (lambda r: (r[0], [], {}, r[1]))(sample_path(E, I)), p_has)
