// Merkle trees over symbolic digests. A term is an atom (a leaf) or the hash of
// an unordered pair of terms; terms are numbered, atoms first. A hash that is
// not in the table is unlike every term (no collisions).
module merkle {
  import cryptobs.* from "./cryptobs"
  const ATOMS: int
  const SIZES: Set[int]             // numbers of leaves
  const SPINES: Set[int]            // depths of a further, one-sided tree
  const PATTERNS: Set[int]          // of the atoms' bytes
  const EXTRA: int                  // how many further terms may be made

  var nodes: List[List[int]]        // [smaller, larger] of the terms ATOMS, ATOMS + 1, ...
  var tree: List[int]               // complete binary tree, root first, leaves last in reverse
  var spine: List[int]              // one-sided tree: atoms from the deepest up
  var tip: int                      // its root
  var pattern: int                  // how the bytes of the atoms resemble each other
  var obs: Obs

  pure def find(ns: List[List[int]], a: int, b: int): int =
    range(0, ns.length()).foldl(-1, (r, i) => if (ns[i] == [minOf(a, b), maxOf(a, b)]) ATOMS + i else r)
  // The hash of a pair as a term, -1 when it is none of the terms.
  pure def join(ns: List[List[int]], a: int, b: int): int = if (a < 0 or b < 0) -1 else find(ns, a, b)
  pure def intern(ns: List[List[int]], a: int, b: int): List[List[int]] =
    if (find(ns, a, b) >= 0) ns else ns.append([minOf(a, b), maxOf(a, b)])
  // Grows a tree from its leaves: parents of positions 2i+1 and 2i+2.
  pure def grow(leaves: List[int]): { ns: List[List[int]], tr: List[int] } = {
    val n = leaves.length()
    val start = range(0, 2 * n - 1).foldl([], (l, i) => l.append(if (i < n - 1) 0 else leaves[2 * n - 2 - i]))
    range(0, n - 1).foldl({ ns: [], tr: start }, (s, k) => {
      val i = n - 2 - k
      val more = intern(s.ns, s.tr[2 * i + 1], s.tr[2 * i + 2])
      { ns: more, tr: s.tr.replaceAt(i, find(more, s.tr[2 * i + 1], s.tr[2 * i + 2])) }
    })
  }
  def nterms: int = ATOMS + nodes.length()
  def nleaves: int = (tree.length() + 1) / 2
  pure def sibling(i: int): int = if (i % 2 == 1) i + 1 else i - 1
  pure def parent(i: int): int = (i - 1) / 2
  // Sibling path of a position (32 levels are more than any tree here has).
  pure def path(tr: List[int], i: int): List[int] =
    range(0, 6).foldl({ i: i, l: [] }, (s, k) => if (s.i == 0) s else { i: parent(s.i), l: s.l.append(tr[sibling(s.i)]) }).l
  pure def climb(ns: List[List[int]], leaf: int, proof: List[int]): int = proof.foldl(leaf, (x, y) => join(ns, x, y))
  // Is x the term t or a part of it?
  def within(x: int, t: int): bool =
    range(0, nodes.length()).foldl(Set(t), (s, k) => {
      val i = nodes.length() - 1 - k
      if (s.contains(ATOMS + i)) s.union(Set(nodes[i][0], nodes[i][1])) else s
    }).contains(x)

  // ---- verify
  action verify(leaf: int, proof: List[int], root: int): bool = all {
    obs' = { op: "verify", args: [[leaf], proof, [root]], ret: [[bit(climb(nodes, leaf, proof) == root)]], bad: "" },
    nodes' = nodes, tree' = tree, spine' = spine, tip' = tip, pattern' = pattern,
  }
  // ---- verify_multi_proof
  type Run = { queue: List[int], h: int, p: int, bad: str }
  pure def consume(ns: List[List[int]], leaves: List[int], proof: List[int], flags: List[int]): Run =
    range(0, flags.length()).foldl({ queue: leaves, h: 0, p: 0, bad: "" }, (s, i) =>
      if (s.bad != "") s
      else if (flags[i] == 1)
        if (s.h + 1 >= s.queue.length()) { ...s, bad: "InvalidRootChild" }
        else { ...s, queue: s.queue.append(join(ns, s.queue[s.h], s.queue[s.h + 1])), h: s.h + 2 }
      else
        if (s.p >= proof.length()) { ...s, bad: "InvalidProofLength" }
        else { ...s, queue: s.queue.append(join(ns, s.queue[s.h], proof[s.p])), h: s.h + 1, p: s.p + 1 })
  action answer(leaves: List[int], proof: List[int], flags: List[int], root: int, ok: bool, bad: str): bool = all {
    obs' = { op: "multi", args: [leaves, proof, flags, [root]], ret: if (bad != "") [] else [[bit(ok)]], bad: bad },
    nodes' = nodes, tree' = tree, spine' = spine, tip' = tip, pattern' = pattern,
  }
  action multi(leaves: List[int], proof: List[int], flags: List[int], root: int): bool =
    if (leaves.length() + proof.length() != flags.length() + 1) answer(leaves, proof, flags, root, false, "InvalidTotalHashes")
    else if (flags.length() == 0) answer(leaves, proof, flags, root, (if (leaves.length() > 0) leaves[0] else proof[0]) == root, "")
    else if (leaves.length() == 0) answer(leaves, proof, flags, root, false, "NoLeaves")
    else ran(leaves, proof, flags, root, consume(nodes, leaves, proof, flags))
  action ran(leaves: List[int], proof: List[int], flags: List[int], root: int, r: Run): bool =
    answer(leaves, proof, flags, root, r.bad == "" and r.queue[r.queue.length() - 1] == root, r.bad)
  // ---- hashing two known terms makes (or finds) a term
  action make(a: int, b: int): bool = {
    val more = intern(nodes, a, b)
    all {
      obs' = { op: "make", args: [[a], [b]], ret: [[find(more, a, b)]], bad: "" },
      nodes' = more, tree' = tree, spine' = spine, tip' = tip, pattern' = pattern,
    }
  }

  // The multi-proof of a set of leaf positions, as the usual tree libraries make it.
  type Multi = { stack: List[int], proof: List[int], flags: List[int] }
  pure def multiProof(tr: List[int], sel: List[int]): Multi =
    if (sel.length() == 0) { stack: [], proof: [tr[0]], flags: [] } else
    range(0, tr.length()).foldl({ stack: sel, proof: [], flags: [] }, (s, k) =>
      if (s.stack[0] == 0) s else {
        val j = s.stack[0]
        val pair = s.stack.length() > 1 and s.stack[1] == sibling(j)
        val left = s.stack.slice(if (pair) 2 else 1, s.stack.length())
        { stack: left.append(parent(j)),
          proof: if (pair) s.proof else s.proof.append(tr[sibling(j)]),
          flags: s.flags.append(bit(pair)) }
      })
  // Leaf positions chosen by the bits of a mask, in the order of the tree's end.
  def selected(mask: int): List[int] =
    range(0, nleaves).foldl({ m: mask, l: [] }, (s, k) =>
      { m: s.m / 2, l: if (s.m % 2 == 1) s.l.append(2 * nleaves - 2 - k) else s.l }).l
  def at(l: List[int]): List[int] = l.foldl([], (r, i) => r.append(tree[i]))

  pure def drop(l: List[int], i: int): List[int] = range(0, l.length()).foldl([], (r, k) => if (k == i) r else r.append(l[k]))
  pure def change(l: List[int], i: int, v: int): List[int] = if (l.length() == 0) l else l.replaceAt(i % l.length(), v)
  pure def swap(l: List[int], i: int, j: int): List[int] =
    if (l.length() == 0) l else {
      val a = i % l.length()
      val b = j % l.length()
      l.replaceAt(a, l[b]).replaceAt(b, l[a])
    }
  pure def lean(ns: List[List[int]], l: List[int]): { ns: List[List[int]], tip: int } =
    range(1, l.length()).foldl({ ns: ns, tip: l[0] }, (s, i) => {
      val more = intern(s.ns, s.tip, l[i])
      { ns: more, tip: find(more, s.tip, l[i]) } })
  action seed(g: { ns: List[List[int]], tr: List[int] }, sp: List[int], pat: int): bool = {
    val h = lean(g.ns, sp)
    all { nodes' = h.ns, tree' = g.tr, spine' = sp, tip' = h.tip, pattern' = pat, obs' = { ...noObs, args: [[ATOMS], [pat]] } }
  }
  action init = {
    nondet sz = oneOf(SIZES)
    nondet base = oneOf(0.to(ATOMS - 1))
    nondet twin = oneOf(0.to(3))
    nondet pat = oneOf(PATTERNS)
    nondet depth = oneOf(SPINES)
    nondet by = oneOf(1.to(ATOMS))
    // distinct leaves, or with one repeated
    seed(grow(range(0, sz).foldl([], (l, i) => l.append(if (twin == 0 and i == sz - 1) base else (base + i) % ATOMS))),
      range(0, depth).foldl([], (l, i) => l.append((base + i * by) % ATOMS)), pat)
  }
  // One variation of a sequence: none, another element, one dropped, one added, two swapped.
  pure def vary(l: List[int], how: int, i: int, j: int, v: int): List[int] =
    if (how == 0) change(l, i, v) else if (how == 1) (if (l.length() == 0) l else drop(l, i % l.length()))
    else if (how == 2) l.append(v) else if (how == 3) [v].concat(l) else if (how == 4) swap(l, i, j) else l
  action single(pos: int, how: int, i: int, j: int, v: int, w: int): bool = any {
    verify(tree[pos], path(tree, pos), tree[0]),
    verify(tree[pos], vary(path(tree, pos), how, i, j, v), tree[0]),
    verify(v, path(tree, pos), tree[0]),
    verify(tree[pos], path(tree, pos), v),
    verify(tree[pos], [], v),
    // any inner node as the root, or as the leaf
    verify(tree[pos], path(tree, pos).slice(0, i % (path(tree, pos).length() + 1)), w),
    verify(w, vary(path(tree, pos), how, i, j, v), w),
  }
  // Proofs along the spine, which may be long.
  action deep(how: int, i: int, v: int, w: int): bool = any {
    verify(spine[0], spine.slice(1, spine.length()), tip),
    verify(spine[0], vary(spine.slice(1, spine.length()), how, i, v, w), tip),
    multi([spine[0]], spine.slice(1, spine.length()), range(1, spine.length()).foldl([], (l, x) => l.append(0)), tip),
    multi([spine[0]], vary(spine.slice(1, spine.length()), if (how == 4) 4 else 0, i, v, w), range(1, spine.length()).foldl([], (l, x) => l.append(0)), tip),
  }
  action manyOf(l: List[int], m: Multi, how: int, i: int, j: int, v: int, w: int, flip: int): bool = any {
    multi(l, m.proof, m.flags, tree[0]),
    multi(vary(l, how, i, j, v), m.proof, m.flags, tree[0]),
    multi(l, vary(m.proof, how, i, j, v), m.flags, tree[0]),
    multi(l, m.proof, vary(m.flags, how, i, j, flip), tree[0]),
    multi(l, vary(m.proof, how, i, j, v), vary(m.flags, how, j, i, flip), tree[0]),
    multi(vary(l, how, i, j, v), m.proof, vary(m.flags, how, j, i, flip), tree[0]),
    multi(vary(l, how, i, j, v), vary(m.proof, (how + 1 + j) % 5, i, j, w), m.flags, tree[0]),
    multi(l, m.proof, m.flags, v),
  }
  action many(mask: int, how: int, i: int, j: int, v: int, w: int, flip: int): bool =
    manyOf(at(selected(mask)), multiProof(tree, selected(mask)), how, i, j, v, w, flip)
  // Arbitrary lists, of matching total length or one off.
  action anything(nl: int, np: int, off: int, bits: int, v: int, w: int, root: int): bool = {
    val ls = range(0, nl).foldl([], (l, k) => l.append((v + k * w) % nterms))
    val ps = range(0, np).foldl([], (l, k) => l.append((w + k * v) % nterms))
    val fs = range(0, maxOf(nl + np - 1 + off, 0)).foldl({ b: bits, l: [] }, (s, k) => { b: s.b / 2, l: s.l.append(s.b % 2) }).l
    multi(ls, ps, fs, root)
  }
  action step = {
    nondet pos = oneOf(0.to(tree.length() - 1))
    nondet how = oneOf(0.to(5))
    nondet i = oneOf(0.to(7))
    nondet j = oneOf(0.to(7))
    nondet v = oneOf(0.to(nterms - 1))
    nondet w = oneOf(0.to(nterms - 1))
    nondet mask = oneOf(0.to(2^nleaves - 1))
    nondet flip = oneOf(0.to(1))
    nondet nl = oneOf(0.to(4))
    nondet np = oneOf(0.to(4))
    nondet bits = oneOf(0.to(511))
    nondet off = oneOf(Set(0, -1, 1))
    nondet off2 = oneOf(Set(0, off))
    any {
      single(pos, how, i, j, v, w), single(pos, how, i, j, v, w), single(pos, how, i, j, tree[j % tree.length()], tree[i % tree.length()]),
      many(mask, how, i, j, v, w, flip), many(mask, how, i, j, v, w, flip), many(2^nleaves - 1, how, i, j, v, w, flip),
      anything(nl, np, off2, bits, v, w, tree[0]), anything(nl, np, off2, 511, v, w, v), anything(nl, np, 0, bits, v, w, w),
      deep(how, i * j, j, v), all { nodes.length() < nleaves + spine.length() + EXTRA, make(v, w) },
    }
  }
  action stepAll = {
    nondet nl = oneOf(0.to(2))
    nondet np = oneOf(0.to(2))
    nondet a = oneOf(0.to(nterms - 1))
    nondet b = oneOf(0.to(nterms - 1))
    nondet c = oneOf(0.to(nterms - 1))
    nondet root = oneOf(0.to(nterms - 1))
    nondet f = oneOf(Set([], [0], [1], [0, 0], [0, 1], [1, 0], [1, 1], [0, 0, 0], [1, 0, 1], [0, 1, 1], [1, 1, 0], [1, 1, 1], [0, 0, 1]))
    any {
      verify(a, [b, c].slice(0, np), root), multi([a, b].slice(0, nl), [c, a].slice(0, np), f, root),
      all { nodes.length() < nleaves + spine.length() + EXTRA, make(a, b) },
    }
  }
  // Whatever is accepted is part of the root: claimed leaves and the proof.
  val sound = (obs.op == "verify" and obs.ret == [[1]]) implies
    (within(obs.args[0][0], obs.args[2][0]) and range(0, obs.args[1].length()).foldl(true, (ok, k) => ok and within(obs.args[1][k], obs.args[2][0])))
  val soundMulti = (obs.op == "multi" and obs.ret == [[1]]) implies
    range(0, obs.args[0].length()).foldl(true, (ok, k) => ok and within(obs.args[0][k], obs.args[3][0]))
  // Every honest proof is accepted.
  val complete = range(0, tree.length()).foldl(true, (ok, i) => ok and climb(nodes, tree[i], path(tree, i)) == tree[0])
  def honest(mask: int): bool = {
    val m = multiProof(tree, selected(mask))
    val l = at(selected(mask))
    val r = consume(nodes, l, m.proof, m.flags)
    l.length() + m.proof.length() == m.flags.length() + 1 and
    (if (m.flags.length() == 0) (if (l.length() > 0) l[0] else m.proof[0]) == tree[0]
     else r.bad == "" and r.queue[r.queue.length() - 1] == tree[0])
  }
  val completeMulti = obs.op == "init" implies range(0, if (nleaves <= 6) 2^nleaves else 8).foldl(true, (ok, m) => ok and honest(m * 37 % 2^nleaves))
  val safety = sound and soundMulti and complete and completeMulti
}
module main {
  import merkle(ATOMS = 12, SIZES = 1.to(11), SPINES = Set(2, 3, 30, 31, 32, 33, 34, 65), PATTERNS = 0.to(5), EXTRA = 6).*
}
module small {
  import merkle(ATOMS = 2, SIZES = Set(1, 2, 3), SPINES = Set(1), PATTERNS = Set(0), EXTRA = -1).*
}
