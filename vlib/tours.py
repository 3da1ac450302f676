"""Behaviours that together take every transition of a state graph.

TLC in mode "edges" prints one record [f, e, t] per transition: the state before, the logged
operation, the state after.  tours() joins them into long behaviours from the initial state, so that
every transition is replayed at least once."""
import json
from collections import deque

def tours(edges, init=None, maxlen=400, final=lambda e: False):
    key = lambda s: json.dumps(s, sort_keys=True, separators=(",", ":"))
    ids = {}; out = []
    def nid(s):
        k = key(s)
        if k not in ids: ids[k] = len(ids); out.append([])
        return ids[k]
    seen = set()
    tos = set()
    for x in edges:
        f, t = nid(x["f"]), nid(x["t"])
        k = (f, key(x["e"]))
        if k in seen: continue
        seen.add(k)
        out[f].append((x["e"], t)); tos.add(t)
    if not ids: return []
    root = ids[key(init)] if init is not None else 0
    n = len(out)
    # shortest paths from the initial state
    pred = [None] * n; dist = [-1] * n; dist[root] = 0; dq = deque([root]); order = []
    while dq:
        s = dq.popleft(); order.append(s)
        for e, t in out[s]:
            if final(e): continue
            if dist[t] < 0: dist[t] = dist[s] + 1; pred[t] = (s, e); dq.append(t)
    todo = [list(reversed(o)) for o in out]
    res = []
    nbr = []
    for o in out:
        d = {}
        for e, t in o:
            if t not in d and not final(e): d[t] = e
        nbr.append(list(d.items()))
    def local(s, lim=4000):
        q = deque([s]); par = {s: None}
        while q and len(par) < lim:
            u = q.popleft()
            for t, e in nbr[u]:
                if t in par: continue
                par[t] = (u, e)
                if todo[t]:
                    p = []; x = t
                    while par[x]: p.append(par[x][1]); x = par[x][0]
                    return list(reversed(p)), t
                q.append(t)
        return None
    def take(s):
        o = todo[s]
        for k in range(len(o) - 1, max(-1, len(o) - 13), -1):
            if todo[o[k][1]] and not final(o[k][0]): return o.pop(k)
        return o.pop()
    for s0 in order:
        while todo[s0]:
            p = []; u = s0
            while pred[u] is not None: p.append(pred[u][1]); u = pred[u][0]
            path = list(reversed(p)); s = s0
            while True:
                if todo[s]:
                    e, t = take(s); path.append(e); s = t
                    if final(e): break
                    if len(path) >= maxlen: break
                    continue
                if len(path) >= maxlen: break
                q = local(s)
                if q is None: break
                path += q[0]; s = q[1]
            res.append(path)
    return res
