"""Strongly connected components (iterative Tarjan)."""


def sccs(g):
    nodes = set(g) | {b for v in g.values() for b in v}
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in sorted(nodes):
        if r in idx:
            continue
        work = [(r, iter(sorted(g.get(r, ()))))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ())))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out
