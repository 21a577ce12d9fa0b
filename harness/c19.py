"""C19 linearisation (Problem.tla)."""
from c02 import run_configs
from problem import F, con

OPS = {'linearize', 'lock', 'lock_at', 'subst', 'con'}
CONFIGS = {
    'lin_nl': dict(n=3, dom=[{0, 1, 2}, {-1, 3}, {0, 1}], lb=[0, -1, 0], ub=[2, 3, 1], kind=['cont'] * 3, start=[2, -1, 0],
                   con=[con(3, '<', lin=True, k=-6, l=[1, 2, 3]), con(3, '>', k=-3, l=[0, 1, -2], q=[1, 0, 0], m=1),
                        con(3, '=', k=1, l=[1, 0, 5], q=[0, 1, 0]), con(3, '<', lin=True, bvar=3, l=[2, 7, 0])],
                   obj=dict(f=F(3, 1, [1, 10, 100], [2, 0, 7], 3), max=False, fea=False), ops=OPS),
    'max': dict(n=2, dom=[{0, 3}, {1, 2}], lb=[0, 1], ub=[3, 2], kind=['cont'] * 2, start=[0, 1],
                con=[con(2, '>', k=-4, l=[1, 1], m=2)],
                obj=dict(f=F(2, 1, [1, 10], [2, 0]), max=True, fea=False), ops=OPS | {'direct'}),
    'index': dict(n=3, dom=[{0, 1, 2}, {0, 2}, {4, 6}], lb=[0, 0, 4], ub=[2, 2, 6], kind=['index', 'int', 'disc'],
                  start=[1, 0, 4],
                  con=[con(3, '<', lin=True, k=-7, l=[3, -1, 1]), con(3, '>', k=-9, l=[2, 1, 1], q=[1, 0, 0], m=1)],
                  obj=dict(f=F(3, 2, [5, 10, 1], [1, 0, 0]), max=False, fea=False), ops=OPS),
    'fea': dict(n=2, dom=[{0, 1, 2}, {1, 3}], lb=[0, 1], ub=[2, 3], kind=['cont'] * 2, start=[1, 1], lids={'1', 'ALL'},
                con=[con(2, '<', fea=True, lids=[1], k=-3, l=[1, 1]), con(2, '>', fea=True, lids=['ALL'], k=-4, q=[1, 0], l=[0, 1])],
                obj=dict(f=F(2, 1, [1, 10], [0, 1]), max=False, fea=True), ops=OPS | {'obj', 'fea'}),
}
DEEP = {
    'four': dict(n=4, dom=[{0, 2}, {1, 3}, {0, 1}, {-1, 1}], lb=[0, 1, 0, -1], ub=[2, 3, 1, 1], kind=['cont'] * 4,
                 start=[2, 1, 0, 1], con=[
                     con(4, '<', lin=True, k=-6, l=[1, 2, 3, 7]), con(4, '>', k=-3, l=[0, 1, -2, 5], q=[1, 0, 0, 2], m=1)],
                 obj=dict(f=F(4, 1, [1, 10, 100, 1000], [0, 0, 7, 0], 3), max=False, fea=False), ops=OPS),
}


def run(chk):
    run_configs(chk, CONFIGS, walks=(200, 2000))
    if not chk.quick:
        run_configs(chk, DEEP)
