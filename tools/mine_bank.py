"""Finds grids on which rare techniques act; lines WxH unique bruteforce techniques numbers."""
import random, sys, time
sys.path[:0] = ["/verif", "/repo"]
sys.dont_write_bytecode=True
from vf import work
from sudokutools.solvers import solve
seed=int(sys.argv[1]); end=time.time()+float(sys.argv[2])
rng=random.Random(seed)
rare={"HiddenTriple","NakedQuad","HiddenQuad","NakedQuint","HiddenQuint","XWing","Swordfish","Jellyfish"}
while time.time()<end:
    w,h=rng.choice([(3,3)]*6+[(2,4),(4,2),(2,5),(5,2),(3,4)])
    n=w*h
    sol=work.solution(rng,w,h)
    uni = n<=9 and rng.random()<0.4
    g = work.dig_unique(rng,sol,w,h,goal=0) if uni else work.dig(rng,sol,w,h,rng.uniform(0.55,0.75))
    steps=[]
    solve(work.to_sudoku(g,w,h),steps.append)
    t={type(s).__name__ for s in steps}&rare
    if t:
        br=any(type(s).__name__=="Bruteforce" for s in steps)
        print("%dx%d %d %d %s %s"%(w,h,uni,br,",".join(sorted(t)),".".join(str(v) for r in g for v in r)),flush=True)
