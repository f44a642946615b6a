"""Video: layers merged, mixed and placed."""
import os
import subprocess
import tempfile
from types import SimpleNamespace
import numpy as np
import z3
import streamtasks
import streamtasks.client, streamtasks.utils
from streamtasks.media import video
from streamtasks.system.tasks.media import videomixer, videolayout
from symx import exec as X, llvm, values as V
from symx.harness import harness, meta
from props.tasks import OUT
from props.timing import media_rig
from symx import nparr
from props.media import pack, unpack

SOURCE = os.path.join(os.path.dirname(os.path.abspath(streamtasks.__file__)), "media", "video_perf_all.cpp")
ENTRY = os.path.join(llvm.STUBS, "merge_entry.cpp")
COMPILED = {}


def compiled(kind):
  """merge_images from the current source: as LLVM IR, or as a program that runs under AddressSanitizer"""
  if kind not in COMPILED:
    if kind == "ir": COMPILED[kind] = llvm.compile_ir(SOURCE, ENTRY)
    else:
      COMPILED["dir"] = tempfile.TemporaryDirectory()
      COMPILED[kind] = os.path.join(COMPILED["dir"].name, "merge")
      llvm.compile_native(SOURCE, ENTRY, COMPILED[kind])
  return COMPILED[kind]


def merge(ctx, images, alpha_front):
  """-> the merged bytes, or what went wrong"""
  if ctx.symbolic:
    m = llvm.Machine(compiled("ir"), ctx)
    n = max(1, len(images))
    ptrs, sizes, out = m.alloc(8 * n, "pointers"), m.alloc(8 * n, "sizes"), m.alloc(max([64] + [2 * len(i) for i in images]), "result")
    for k, cells in enumerate(images):
      p = m.alloc(len(cells), "image")
      p.o.cells[:] = cells
      m.store("ptr", p, llvm.Ptr(ptrs.o, 8 * k))
      m.store(("i", 64), len(cells), llvm.Ptr(sizes.o, 8 * k))
    try: size = m.run("@entry", [ptrs, sizes, len(images), int(alpha_front), out])
    except llvm.Fault as e: return None, str(e)
    finally: X._functions.update("streamtasks/media/video_perf_all.cpp:" + f.strip("@") for f in m.calls if "merge_images" in f)
    size = m.concrete(size)
    same = all(z3.eq(a, b) if z3.is_expr(a) and z3.is_expr(b) else a is b or a == b if not z3.is_expr(a) and not z3.is_expr(b) else False
      for k, cells in enumerate(images) for a, b in zip(cells, m.load("ptr", llvm.Ptr(ptrs.o, 8 * k)).o.cells))
    leak = [o for o in m.allocated if o.what == "heap" and o.live]
    return m.load_bytes(out, size), None if same and not leak else "an image is changed" if not same else "memory is not freed"
  p = subprocess.run([compiled("native"), "1" if alpha_front else "0"] + ["x" + bytes(i).hex() for i in images], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0"})
  if p.returncode: return None, p.stderr[:600]
  return list(bytes.fromhex(p.stdout.strip())), None


def pixels(ctx, name, n):
  if not ctx.symbolic: return [ctx._get(f"{name}_{i}", 0) for i in range(n)]
  r = [z3.BitVec(f"{name}_{i}", 8) for i in range(n)]
  for i, c in enumerate(r): ctx.e.declare(f"{name}_{i}", c, "bv")
  return r


PROVED = {}


def blended(ctx, out, old, new, alpha):
  """out is (255 - alpha) of the old and alpha of the new value, in 255ths, within one"""
  if not any(z3.is_expr(x) for x in (out, old, new, alpha)): return abs(255 * out - (255 - alpha) * old - alpha * new) < 255
  w = lambda v: z3.ZeroExt(24, v) if z3.is_expr(v) else z3.BitVecVal(v, 32)
  # one value, written in ways of which the solver may meet one in the code
  ways = [lambda old, new, alpha: w(~alpha if z3.is_expr(alpha) else 255 - alpha) * w(old) + w(alpha) * w(new), lambda old, new, alpha: (255 - w(alpha)) * w(old) + w(alpha) * w(new), lambda old, new, alpha: 255 * w(old) + w(alpha) * (w(new) - w(old))]
  def goal(out, old, new, alpha, tol, way):
    exact = way(old, new, alpha)
    return z3.And(z3.ULT(255 * w(out), exact + tol), z3.ULT(exact, 255 * w(out) + tol))
  # for every value that the layers below may have left: the same formula for every pixel, proved once
  x, y, a = z3.BitVec("old", 8), z3.BitVec("new", 8), z3.BitVec("alpha", 8)
  general = llvm.bits(out, 8)
  if z3.is_expr(old): general = z3.substitute(general, (old, x))
  general = z3.simplify(z3.substitute(general, (new, y), (alpha, a)))
  key = (general.sexpr(), old if type(old) is int else "x")
  if key not in PROVED:
    over = x if z3.is_expr(old) else old
    PROVED[key] = any(ctx.e.valid(goal(general, over, y, a, 255, way), ms) for ms in (1000, 10000) for way in ways)
    # alpha by alpha, the others still of every value
    if not PROVED[key]: PROVED[key] = all(ctx.e.valid(z3.substitute(goal(general, over, y, a, 255, ways[1]), (a, z3.BitVecVal(k, 8))), 3000) for k in range(256))
  if PROVED[key]: return True
  same = lambda p, q: llvm.bits(p, 8) == llvm.bits(q, 8)
  return V.wrap_bool(z3.And(goal(out, old, new, alpha, 510, ways[0]), z3.Implies(same(alpha, 255), same(out, new)), z3.Implies(same(alpha, 0), same(out, old))))


def equal(a, b):
  if not z3.is_expr(a) and not z3.is_expr(b): return a == b
  return V.wrap_bool(llvm.bits(a, 8) == llvm.bits(b, 8))


# ---------------------------------------------------------------- C36 merged video
meta("C36", bounds="merging: the compiled C++ of 1 to 3 images (thorough 4) of 0 to 21 bytes, of equal and different sizes, every value of every byte, alpha first and last; mixer: 2 tracks (thorough 3), histories of 4 (thorough 5) frames, pauses and malformed frames with the thread running or waiting in between, every timestamp; layout: frames of up to 3 by 2 pixels placed at every offset with every size of up to 3 by 3 in frames of up to 3 by 3",
     outside="compilers other than clang for the IR; the scaler of OpenCV (replaced by one that copies pixels); images larger than the bounds")

SIZES = [(1, (4,)), (1, (8,)), (1, (17,)), (1, (18,)), (1, (19,)), (1, (16,)), (2, (8, 8)), (2, (4, 8)), (2, (20, 16)), (2, (21, 18)), (2, (0, 4)), (1, (0,)), (1, (3,)), (3, (4, 4, 4)), (2, (17, 4))]
MORE = [(3, (8, 4, 8)), (2, (20, 20)), (3, (18, 19, 17)), (4, (4, 4, 4, 4)), (1, (40,)), (2, (23, 22))]


@harness("C36", "merge", shards=lambda tier: [dict(front=f, sizes=s) for f in (False, True) for _, s in (SIZES if tier == "quick" else SIZES + MORE)], must=["memory outside the images is left alone", "the layers are blended in their order"])
def c36_merge(ctx, front, sizes):
  images = [pixels(ctx, f"b{k}", n) for k, n in enumerate(sizes)]
  below = [0] * max(sizes)
  n = min(sizes)
  for k in range(1, len(sizes) + 1):      # every layer over those below it
    out, wrong = merge(ctx, images[:k], front)
    ctx.check(wrong is None, "memory outside the images is left alone", wrong)
    ctx.check(len(out) == min(sizes[:k]), "the result has the size of the smallest image", (len(out), n))
    for at in range(0, n - 3, 4):
      a, c0 = (at, at + 1) if front else (at + 3, at)
      ctx.check(equal(out[a], 255), "the result is opaque", (a, out[a]))
      for c in range(c0, c0 + 3): ctx.check(blended(ctx, out[c], below[c], images[k - 1][c], images[k - 1][a]), "the layers are blended in their order", (c, out[c]))
    below = out


def layered(images, alpha_front):
  """what merge_images does, for values"""
  out = bytearray(min(map(len, images)))
  for at in range(0, len(out), 4):
    a, c0 = (at, at + 1) if alpha_front else (at + 3, at)
    for c in range(c0, c0 + 3):
      for i in images: out[c] = ((255 - i[a]) * out[c] + i[a] * i[c]) // 255
    out[a] = 255
  return bytes(out)


COLORS = {"rgba": (1, 2, 3, 255), "bgra": (3, 2, 1, 255), "argb": (255, 1, 2, 3), "abgr": (255, 3, 2, 1)}


def layer(track, k, fmt="bgra", n=2):
  """a frame half of which lets those below through: no two mixes of them look the same"""
  i = 64 * track + k
  color = [(i * 37 + 11) % 256, (i * 91 + 5) % 256, (i * 53 + 77) % 256]
  return bytes(([150] + color if fmt[0] == "a" else color + [150]) * n)


def mixer(ctx, tracks, fmt, sync=False):
  ctx.stub(videomixer, "merge_images", layered)
  r = media_rig(ctx, videomixer, lambda c: videomixer.VideoMixerTask(c, videomixer.VideoMixerConfig(width=2, height=1, pixel_format=fmt, bgcolor_hex="#010203", synchronized=sync, rate=25,
    video_tracks=[{"in_topic": 1 + t} for t in range(tracks)], out_topic=OUT)))
  return r, bytes(COLORS[fmt]) * 2


@harness("C36", "mixer", shards=lambda tier: [dict(tracks=t, fmt=f, n=n, times=m, first=o) for t, f, n, m in (((2, "bgra", 3, True), (2, "bgra", 3, False), (1, "argb", 3, True), (1, "rgba", 12, "late")) if tier == "quick" else
  ((3, "bgra", 3, False), (2, "bgra", 4, False), (2, "rgba", 4, True), (3, "abgr", 3, True), (1, "argb", 5, False), (1, "rgba", 20, "late"), (2, "rgba", 20, "late"))) for o in range(t)],
         must=["every picture is made of the latest frame of each track", "every frame is seen before the next of its track"], model_patch=True)
def c36_mixer(ctx, tracks, fmt, n, times, first):
  """every time, or times that rise and malformed frames and a thread that is late"""
  r, background = mixer(ctx, tracks, fmt)
  latest, states, shown, must, frames = [None] * tracks, [], [], [], 0
  due = [[] for _ in range(tracks)]       # per track: frames sent
  def look(at):
    """the pictures so far, each as the state it shows"""
    for kind, d in r.new():
      if kind != "data": continue
      k = next((k for k in range(at, -1, -1) if states[k] is not None and d["data"] == layered([background] + [f[1] for f in states[k] if f is not None], fmt[0] == "a")), None)
      ctx.check(k is not None and (not shown or k >= shown[-1]), "every picture is made of the latest frame of each track", (d, states))
      least = min_of(ctx, [f[0] for f in states[k] if f is not None])
      ctx.check(d["timestamp"] == least, "a picture has the time of its oldest frame", d["timestamp"])
      shown.append(k)
  for i in range(n + 1):
    op = i % tracks if times == "late" else first if i == 0 else ctx.choice(f"op{i}", tracks if i == n else 2 * tracks + (not times))
    if op < tracks:
      track = op
      t = ctx.int(f"t{i}", 0, 10 ** 12) if times is True else 40 * i
      f = (t, layer(track, i, fmt), i)
      if latest[track] is not None: must.append(latest[track])      # seen from now on
      latest[track] = f
      frames += 1
      r.data(1 + track, {"timestamp": t, "data": f[1]})
    elif op < 2 * tracks:
      track = op - tracks
      r.pause(1 + track, i % 2 == 1)
      latest[track] = None
    else: r.data(1, {"timestamp": 5, "data": layer(0, i, fmt, 1)})      # no frame
    states.append(list(latest) if any(f is not None for f in latest) else None)
    if times is True or not times and i < n and ctx.flag(f"wait{i}"):
      r.loop.advance(0.2)
      look(i)
  r.loop.advance(1)
  look(n)
  ctx.check(r.alive(), "the task keeps running", r.job)
  for f in must:
    ctx.check(any(any(g is not None and g[2] == f[2] for g in states[k]) for k in shown), "every frame is seen before the next of its track", (f, shown))
  ctx.check(len(shown) <= frames, "no more pictures than frames", (len(shown), frames))


def min_of(ctx, ts):
  m = ts[0]
  for t in ts[1:]: m = ctx.Ite(t < m, t, m)
  return m


@harness("C36", "together", shards=lambda tier: [dict(tracks=2, order=o) for o in (((0, 1, 0, 1, 0), (0, 0, 1, 1, 1), (1, 0, 0, 1)) if tier == "quick" else ((0, 1, 0, 1, 0, 1), (0, 0, 0, 1, 1, 1), (1, 0, 0, 1, 1, 0), (1, 1, 0, 0, 1, 1), (0, 1, 1, 0, 0, 1)))],
         must=["frames shown together belong together", "times do not go back"], model_patch=True)
def c36_together(ctx, tracks, order):
  """synchronized tracks: frames arrive in any order, their times rise per track"""
  r, background = mixer(ctx, tracks, "bgra", sync=True)
  sent, last = [[] for _ in range(tracks)], [None] * tracks
  for i, track in enumerate(order):
    t = ctx.int(f"t{i}", 0, 10 ** 12)
    if sent[track]: ctx.assume(t > sent[track][-1][0])
    f = (t, layer(track, i), all(sent) or all(sent[:track] + sent[track + 1:]))      # all tracks are known
    sent[track].append(f)
    r.data(1 + track, {"timestamp": t, "data": f[1]})
    r.loop.advance(0.2)
  r.loop.advance(1)
  before, position = None, [0] * tracks
  for kind, d in r.new():
    if kind != "data": continue
    found = None
    for a in range(position[0], len(sent[0]) + 1):
      for b in range(position[1], len(sent[1]) + 1):
        layers = [s[k - 1] for s, k in zip(sent, (a, b)) if k]
        if layers and found is None and d["data"] == layered([background] + [f[1] for f in layers], False): found = (a, b)
    ctx.check(found is not None, "a picture is made of one frame of each track", d)
    ctx.check(all(k - p <= 1 for k, p in zip(found, position)), "every frame is seen", (found, position))
    position = list(found)
    for i in range(tracks):
      for j in range(tracks):
        if i != j and all(found) and sent[j][found[j] - 1][2] and found[i] < len(sent[i]): ctx.check(sent[i][found[i]][0] >= sent[j][found[j] - 1][0], "frames shown together belong together", (found, i, j))
    if before is not None and all(found) and all(was) and all(s[k - 1][2] for s, k in zip(sent, was)): ctx.check(d["timestamp"] >= before, "times do not go back", (before, d["timestamp"]))
    before, was = d["timestamp"], found
  ctx.reach("frames shown together belong together")
  ctx.reach("times do not go back")


def nearest(a, size, **kw):
  """the scaler: pixels are copied"""
  w, h = size
  if w < 1 or h < 1: raise videolayout.cv2.error("empty size")
  ys, xs = [y * a.shape[0] // h for y in range(h)], [x * a.shape[1] // w for x in range(w)]
  return a[ys][:, xs]


@harness("C36", "layout", shards=lambda tier: [dict(inside=i, out=o, top=t, left=l) for i in ((1, 1), (3, 2), (2, 1)) for o in (((1, 1), (3, 2), (2, 3)) if tier == "quick" else ((1, 1), (3, 2), (2, 3), (3, 3), (1, 3))) for t in range(o[1]) for l in range(o[0])],
         must=["the picture is placed where it is configured", "outside of the picture the frame is transparent"], extra={"np": nparr.SymNP()}, model_patch=True)
def c36_layout(ctx, inside, out, top, left):
  place = (1 + ctx.choice("width", 3), 1 + ctx.choice("height", 3))
  import cv2
  ctx.stub(videolayout, "cv2", SimpleNamespace(resize=lambda src, dsize, **kw: nearest(src, dsize), INTER_LINEAR=cv2.INTER_LINEAR, error=cv2.error))
  r = media_rig(ctx, videolayout, lambda c: videolayout.VideoLayoutTask(c, videolayout.VideoLayoutConfig(in_topic=1, out_topic=OUT, rate=25, in_width=inside[0], in_height=inside[1], place_width=place[0], place_height=place[1],
    place_top_offset=top, place_left_offset=left, out_width=out[0], out_height=out[1], pixel_format="rgba")))
  for k in range(2):
    px = [ctx.int(f"p{k}_{i}", 0, 255) for i in range(4 * inside[0] * inside[1])]
    t = ctx.int(f"t{k}", 0, 10 ** 12)
    r.data(1, {"timestamp": t, "data": pack(ctx, px, np.uint8)})
    r.loop.advance(0.2)
    got = [d for kind, d in r.new() if kind == "data"]
    ctx.check(len(got) == 1 and got[0]["timestamp"] == t, "every frame is placed, at its time", got)
    data = unpack(ctx, got[0]["data"], np.uint8)
    ctx.check(len(data) == 4 * out[0] * out[1], "the frame has its size", len(data))
    at = lambda x, y: data[4 * (y * out[0] + x):4 * (y * out[0] + x) + 4]
    for y in range(out[1]):
      for x in range(out[0]):
        u, v = x - left, y - top
        if 0 <= u < place[0] and 0 <= v < place[1]:
          i = 4 * ((v * inside[1] // place[1]) * inside[0] + u * inside[0] // place[0])
          ctx.check(ctx.And(*[a == b for a, b in zip(at(x, y), px[i:i + 4])]), "the picture is placed where it is configured", (x, y, at(x, y)))
        else: ctx.check(ctx.And(*[a == 0 for a in at(x, y)]), "outside of the picture the frame is transparent", (x, y, at(x, y)))
  ctx.reach("outside of the picture the frame is transparent")
