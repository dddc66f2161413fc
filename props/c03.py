"""C03 Editing a live module's state touches exactly what is named."""
from hypothesis import strategies as st

import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a module graph and a history of 1-6 edits (attribute writes, updates from one state, several states, a "
    "split module or another module, through first or alias paths, with new attributes, self updates, pops, mutable "
    "leaf writes, refused updates, continuing on a clone); after every edit the live graph is compared with a reference object graph. "
    "Non-trivial: at least one edit that changes something on a graph with at least 2 nodes."
)

new_leaf = st.one_of(V.variables(values=V.arrays(), unbox=False), V.arrays().map(lambda v: ["val", v]))
upd_values = st.one_of(V.arrays(), V.arrays(), V.contents)


def updates(max_size=3):
  """Which entry (by index), through which alias, plain value or same-kind container, in which state."""
  return st.lists(
      st.tuples(st.integers(0, 40), st.integers(0, 5), upd_values, st.booleans(), st.integers(0, 2)).map(list),
      max_size=max_size,
  )


def news():
  return st.lists(
      st.tuples(st.integers(0, 10), st.sampled_from(["n1", "n2", "0n"]), new_leaf, st.integers(0, 2)).map(list), max_size=2
  )


op = st.one_of(
    st.tuples(st.just("write"), st.integers(0, 40), upd_values),
    st.tuples(st.just("update"), st.sampled_from(["state", "states", "pure", "pures"]), updates(), news()),
    st.tuples(st.just("update"), st.sampled_from(["state", "states", "pure", "pures"]), updates(), news()),
    st.tuples(st.just("module"), updates()),
    st.tuples(st.just("self"), st.sampled_from(["state", "module", "pure", "pures"])),
    st.tuples(st.just("pop"), F.filter_lists(max_size=2)),
    st.tuples(st.just("pop"), F.filter_lists(max_size=2)),
    st.tuples(st.just("leaf"), st.integers(0, 40), upd_values),
    st.tuples(st.just("bad"), st.sampled_from(["state", "states", "pure", "pures"]), st.integers(0, 40), st.integers(0, 5), upd_values, st.sampled_from(["kind", "meta", "sharding", "Static"])),
    st.tuples(st.just("clone")),
    st.tuples(st.just("pure"), st.sampled_from(["state", "states", "pure", "pures", "module"]), updates(), st.booleans()),
).map(list)


@st.composite
def cases(draw):
  return {"g": draw(G.graphs(max_mods=5, unhashable=True)), "ops": draw(st.lists(op, min_size=1, max_size=6))}


def alias_paths(model):
  """Every simple path (no module twice) to every module: index -> list of paths, first path first."""
  first = G.ref_first_paths(model)
  out = {i: [p] for i, p in first.items()}

  def rec(i, path, on):
    if len(path) > 4:
      return
    if path not in out[i] and len(out[i]) < 6:
      out[i].append(path)
    for name, a in sorted(model["mods"][i]["attrs"].items()):
      if a[0] == "mod" and a[1] not in on:
        rec(a[1], path + (name,), on | {a[1]})

  rec(0, (), {0})
  return out


def set_spec(old, value):
  """The attribute spec after assigning a plain value or an equivalent container with that value."""
  if old[0] == "var":
    return ["var", old[1], value, old[3]]
  return ["val", value]


def entry_list(model):
  """Sorted list of (path, module index, name)."""
  first = G.ref_first_paths(model)
  out = []
  for i, p in first.items():
    for name, a in model["mods"][i]["attrs"].items():
      if a[0] != "mod" and V.is_node_spec(a):
        out.append(("/".join(p + (name,)), i, name))
  return sorted(out)


def apply_updates(model, ups, news_, rec, allow_alias=True, boxed=False):
  """Builds the real update states (3 of them, later wins) and applies the update to the model."""
  entries = entry_list(model)
  aliases = alias_paths(model)
  states = [{}, {}, {}]
  effects = [[], [], []]
  for idx, alias, value, plain, which in ups:
    if not entries:
      break
    path, i, name = entries[idx % len(entries)]
    ps = aliases[i] if allow_alias else aliases[i][:1]
    p = ps[alias % len(ps)]
    rec.tag("through an alias", p != ps[0])
    key = "/".join(p + (name,))
    old = model["mods"][i]["attrs"][name]
    new = set_spec(old, value)
    if old[0] != "var":
      # a node attribute without a container is replaced by the value (arrays stay nodes)
      new = ["val", value if value[0] in "jn" else ["j", "f", [2], 3]]
    leaf = V.make_leaf(new) if (old[0] != "var" or boxed or not plain) else V.make_value(new[2])
    states[which][key] = leaf
    effects[which].append((key, i, name, new))
  for mi, name, leaf, which in news_:
    first = list(G.ref_first_paths(model).items())
    i, p = first[mi % len(first)]
    if name in model["mods"][i]["attrs"]:
      continue
    key = "/".join(p + (name,))
    # at most one update creates the same attribute
    if any(key in s for s in states):
      continue
    states[which][key] = V.make_leaf(leaf)
    effects[which].append((key, i, name, leaf))
    rec.tag("new attribute")
  # later states win; within one attribute reached through two names the order is that of first mention
  final = {}
  for effs, s in zip(effects, states):
    mine = {}
    for key, i, name, new in effs:
      mine[key] = (i, name, new)
    for key in sorted(mine):
      final[key] = mine[key]
  targets = {}
  for key, (i, name, new) in final.items():
    targets.setdefault((i, name), []).append(key)
  for keys in targets.values():
    if len(keys) > 1:
      return None, None  # one attribute addressed under two names at once: order is not specified
  return [nnx.State(s) for s in states], [(i, name, new) for (i, name, new) in final.values()]


def commit(model, effects):
  for i, name, new in effects:
    model["mods"][i]["attrs"][name] = new


def copy_model(model):
  return {"mods": [{"cls": m["cls"], "attrs": dict(m["attrs"])} for m in model["mods"]]}


def check_live(m, model, what):
  G.same(G.canon(m), G.ref_canon(model), what)


def real_module(m, parts):
  for name in parts:
    m = vars(m)[name]
  return m


def wrap(how, states, m):
  if how == "state":
    return nnx.State.merge(*states)
  if how == "states":
    return tuple(states)
  if how == "pure":
    return nnx.Pure.new(nnx.State.merge(*states), m.get_module_def())
  return nnx.Pure.new(tuple(states), m.get_module_def())


def run(case, rec):
  model = G.model_of(case["g"])
  m = G.build(case["g"])
  rec.nt(False)
  many = len(entry_list(model)) >= 2
  for k, o in enumerate(case["ops"]):
    what = f"after step {k} ({o[0]})"
    rec.tag(o[0])
    entries = entry_list(model)
    if o[0] == "write":
      names = [(i, n) for i in G.ref_first_paths(model) for n, a in sorted(model["mods"][i]["attrs"].items()) if a[0] in ("var", "val", "pt") and not (model["mods"][i]["cls"] == "Seq" and n in G.seq_extra(1))]
      if not names:
        continue
      i, name = names[o[1] % len(names)]
      x = real_module(m, G.ref_first_paths(model)[i])
      setattr(x, name, V.make_value(o[2]))
      model["mods"][i]["attrs"][name] = set_spec(model["mods"][i]["attrs"][name], o[2])
      rec.nt(many)
    elif o[0] in ("update", "pure"):
      news_ = o[3] if o[0] == "update" else []
      how = o[1]
      if o[0] == "pure":
        cut = m.partition(nnx.Param, ...) if o[3] else m.partition()
        cutdesc = V.desc(cut)
      states, effects = apply_updates(model, o[2], news_, rec, allow_alias=o[0] == "update", boxed=o[0] == "pure")
      if states is None:
        continue
      before = tuple(G.d_state(s) for s in states)
      if o[0] == "update":
        m.update_state(wrap(how, states, m))
        commit(model, effects)
      else:
        target = copy_model(model)
        commit(target, effects)
        if how == "module":
          other = m.clone()
          other.update_state(tuple(states))
          out = cut.update_state(other)
        else:
          out = cut.update_state(wrap(how, states, m))
        check_live(out.merge(), target, f"{what}: an updated split module")
        G.same(V.desc(cut), cutdesc, f"{what}: the split module that was updated")
      G.same(tuple(G.d_state(s) for s in states), before, f"{what}: the states used for the update")
      rec.nt(many and bool(effects))
    elif o[0] == "module":
      states, effects = apply_updates(model, o[1], [], rec)
      if states is None:
        continue
      other = m.clone()
      other.update_state(tuple(states))
      check_live(m, model, f"{what}: updating a clone")
      want = copy_model(model)
      commit(want, effects)
      check_live(other, want, f"{what}: the updated clone")
      m.update_state(other)
      commit(model, effects)
      check_live(other, want, f"{what}: the module used for the update")
      rec.nt(many and bool(effects))
    elif o[0] == "self":
      u = {"state": m.get_state, "module": lambda: m, "pure": m.partition, "pures": lambda: m.partition(nnx.Variable, ...)}[o[1]]()
      m.update_state(u)
    elif o[0] == "pop":
      fs = [f for f in o[1] if f != ["..."]] + [f for f in o[1] if f == ["..."]][:1]
      real = [F.make(f) for f in fs]
      specs = {p: model["mods"][i]["attrs"][n] for p, i, n in entries}
      parts, rest = F.ref_split(fs, specs)
      filtered = F.as_tuple(m.filter(*real))
      popped = m.pop_state(*real)
      assert isinstance(popped, nnx.State if len(fs) == 1 else tuple), type(popped)
      for j, (p, r, q) in enumerate(zip(F.as_tuple(popped), parts, filtered)):
        G.same(G.d_state(p), G.ref_d_state(r), f"{what}: popped part {j}")
        G.same(G.d_state(p), G.d_state(q), f"{what}: popped part {j} against filter")
      assert len(F.as_tuple(popped)) == len(fs)
      full = copy_model(model)
      for p, i, n in entries:
        if p not in rest:
          del model["mods"][i]["attrs"][n]
          rec.nt(many)
      check_live(m, model, what)
      # putting back what was popped gives the original
      back = m.clone()
      back.update_state(popped)
      check_live(back, full, f"{what}: the rest plus what was popped")
    elif o[0] == "leaf":
      leaves = m.mutable_state_dict()
      assert sorted(leaves) == [p for p, _, _ in entries], f"{what}: keys of mutable_state_dict"
      for p, i, n in entries:
        a = model["mods"][i]["attrs"][n]
        x = real_module(m, G.ref_first_paths(model)[i])
        G.same(V.desc(leaves[p].value), V.desc(getattr(x, n)), f"{what}: value of mutable leaf {p}")
        want = None
        if a[0] == "var":
          want = V.make_meta(a[3]).get("sharding")
        assert leaves[p].sharding == want, f"{what}: sharding of mutable leaf {p}: {leaves[p].sharding} != {want}"
      if entries:
        p, i, n = entries[o[1] % len(entries)]
        leaves[p].value = V.make_value(o[2])
        model["mods"][i]["attrs"][n] = set_spec(model["mods"][i]["attrs"][n], o[2])
        x = real_module(m, G.ref_first_paths(model)[i])
        G.same(V.desc(leaves[p].value), V.desc(getattr(x, n)), f"{what}: mutable leaf read after write")
        rec.nt(many)
    elif o[0] == "bad":  # a variable of another kind or with other metadata is refused, by updates as by assignments
      boxed_entries = [e for e in entries if model["mods"][e[1]]["attrs"][e[2]][0] == "var"]
      if not boxed_entries:
        continue
      p, i, n = boxed_entries[o[2] % len(boxed_entries)]
      ps = alias_paths(model)[i]
      p = "/".join(ps[o[3] % len(ps)] + (n,))
      a = model["mods"][i]["attrs"][n]
      value, meta = V.make_value(o[4]), V.make_meta(a[3])
      if o[5] == "kind":
        leaf = V.KINDS["Cache" if a[1] == "BatchStat" else "BatchStat"](value, **meta)
      elif o[5] == "meta":
        leaf = V.KINDS[a[1]](value, **{**meta, "extra": 1})
      elif o[5] == "sharding":
        leaf = V.KINDS[a[1]](value, **{**meta, "sharding": ("another", "name")})
      else:
        leaf = nnx.Static(value)
      states = [nnx.State({p: leaf}), nnx.State({}), nnx.State({})]
      try:
        m.update_state(wrap(o[1], states, m))
      except ValueError:
        pass
      else:
        raise AssertionError(f"{what}: an update of {p} with {leaf} instead of {a} was accepted")
      rec.nt(many)
    elif o[0] == "clone":
      old = m
      m = m.clone()
      check_live(old, model, what)
    check_live(m, model, what)
    G.same(G.d_state(m.get_state()), G.ref_d_state({p: model["mods"][i]["attrs"][n] for p, i, n in entry_list(model)}), f"{what}: state")


@st.composite
def large_cases(draw):
  return {"g": draw(G.large()), "ops": draw(st.lists(op, min_size=2, max_size=4))}


def run_large(case, rec):
  run({**case, "g": G.large_spec(case["g"])}, rec)



CHECKS = [
    Check("history", cases, run, quick=5000, thorough=80000),
    Check("large", large_cases, run_large, quick=40, thorough=500),
]
