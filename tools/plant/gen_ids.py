import math, random
def lcm(a,b): return a*b//math.gcd(a,b)
def build(depth, last, want, seed):
    """ids which collide for every cofactor 0..=last at the depth (and 0..=1 at the previous one), and fit some cofactor of want"""
    r=random.Random(seed)
    mods=[1<<(depth-1),(1<<(depth-1))-1]+[(1<<depth)-c for c in range(last+1)]
    while True:
        order=mods[:]; pairs=[]; i=0
        while i<len(order):
            l=1
            while i<len(order) and lcm(l,order[i]).bit_length()<=250: l=lcm(l,order[i]); i+=1
            pairs.append(l)
        ids=[]
        for l in pairs:
            a=r.getrandbits(200); ids+=[a,a+l]
        fits=[c for c in range(0,want[1]+200) if len({x%((1<<depth)-c) for x in ids})==len(ids)]
        if len(set(ids))==len(ids) and fits and want[0]<=fits[0]<=want[1]: return ids,fits[0]
def rust(ids): return '[\n'+''.join('    "%s",\n'%x.to_bytes(32,'little').hex() for x in ids)+']'
