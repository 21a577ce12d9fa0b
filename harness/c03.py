"""C03 freshness of structural results (Problem.tla with analyses)."""
from c02 import run_configs
from problem import F, con

B = dict(n=2, dom=[{0, 1, 2}, {1, 3}], lb=[0, 1], ub=[2, 3], kind=['cont'] * 2, start=[1, 1])
OPS = {'subst', 'direct', 'lock', 'lock_at', 'fea', 'con', 'cons', 'feasible', 'obj', 'linearize'}
CONFIGS = {
    # constraints reading one, several, and all load cases; objective reading analysis
    'lids': dict(B, lids={'1', '2', 'ALL'}, con=[
        con(2, '<', fea=True, lids=[1], k=-3, l=[1, 1]), con(2, '>', fea=True, lids=[2, 1], k=-1, l=[2, -1]),
        con(2, '<', fea=True, lids=['ALL'], k=-4, q=[1, 0], l=[0, 1]), con(2, '=', k=-2, l=[1, 0])],
        obj=dict(f=F(2, 1, [1, 10]), max=False, fea=False), ops=OPS),
    'feaobj': dict(B, lids={'0', 'ALL'}, con=[
        con(2, '<', fea=True, lids=[0], k=-3, l=[1, 1]), con(2, '<', fea=True, lids=['ALL'], k=-4, q=[1, 0], l=[0, 1]),
        con(2, '>', lin=True, k=-1, l=[1, 1])],
        obj=dict(f=F(2, 1, [1, 10]), max=False, fea=True), ops=OPS),
    'maxfea': dict(B, lids={'ALL'}, kind=['disc', 'index'], dom=[{0, 2, 5}, {0, 1}], lb=[0, 0], ub=[5, 1], start=[0, 1],
                   con=[con(2, '>', fea=True, lids=['ALL'], k=-4, l=[1, 1])],
                   obj=dict(f=F(2, 0, [3, -10]), max=True, fea=True), ops=OPS),
}
DEEP = {
    'three': dict(n=3, dom=[{0, 2}, {1, 3}, {0, 1}], lb=[0, 1, 0], ub=[2, 3, 1], kind=['cont'] * 3, start=[2, 1, 0],
                  lids={'1', '2', 'ALL'}, con=[
                      con(3, '<', fea=True, lids=[1], k=-3, l=[1, 1, 2]), con(3, '>', fea=True, lids=[2, 1], k=-1, l=[2, -1, 1]),
                      con(3, '=', fea=True, lids=['ALL'], k=-4, l=[0, 1, 1])],
                  obj=dict(f=F(3, 1, [1, 10, 100]), max=False, fea=True), ops=OPS),
}


def run(chk):
    run_configs(chk, CONFIGS, walks=(300, 3000))
    if not chk.quick:
        run_configs(chk, DEEP)
