"""ctypes binding of the JSON stream processors."""
import ctypes

KIND = {'salvage': 0, 'compactify': 1, 'head': 2, 'prettify': 3, 'objects': 4, 'arrays': 5, 'nonnull': 6, 'extract': 7,
        'implode': 8, 'explode': 9, 'nth': 10, 'unquote': 11, 'quote': 12, 'chunk': 13}


class Lib:
  def __init__(self, so):
    l = self.l = ctypes.CDLL(so)
    P, I = ctypes.c_void_p, ctypes.c_int64
    l.kj_new.restype = P
    l.kj_new.argtypes = [ctypes.c_int, I, I, I, ctypes.c_char_p, I]
    l.kj_process.restype = I
    l.kj_process.argtypes = [P, ctypes.c_char_p, I, ctypes.c_int, ctypes.POINTER(ctypes.c_int)]
    l.kj_chunk.restype = P
    l.kj_chunk.argtypes = [P, I, ctypes.POINTER(I)]
    l.kj_free.argtypes = [P]
    l.kp_new.restype = P
    l.kp_new.argtypes = [ctypes.c_int] * 5 + [ctypes.c_char_p, I]
    l.kp_add.restype = ctypes.c_int
    l.kp_add.argtypes = [P, ctypes.c_char_p, I, ctypes.c_int, ctypes.c_int, ctypes.POINTER(P), ctypes.POINTER(I)]
    l.kp_free.argtypes = [P]

  def new(self, kind, a=0, b=0, c=0, s=b''):
    return self.l.kj_new(KIND[kind], int(a), int(b), int(c), s, len(s))

  def process(self, h, s, end):
    e = ctypes.c_int()
    n = self.l.kj_process(h, s, len(s), int(end), ctypes.byref(e))
    ln = ctypes.c_int64()
    out = []
    for i in range(n):
      p = self.l.kj_chunk(h, i, ctypes.byref(ln))
      out.append(ctypes.string_at(p, ln.value))
    return out, bool(e.value)

  def run(self, kind, chunks, end_with_last=False, **opt):
    """The output chunks of each call and whether the output ended there; stops at the end of output."""
    h = self.new(kind, **opt)
    try:
      res = []
      for i, c in enumerate(chunks):
        res.append(self.process(h, c, end_with_last and i == len(chunks) - 1))
        if res[-1][1]:
          return res
      res.append(self.process(h, b'', True))
      return res
    finally:
      self.l.kj_free(h)

  def text(self, kind, data, **opt):
    return b''.join(b''.join(x) for x, _ in self.run(kind, [data], **opt))

  def parse(self, chunks, *, remove=False, single=False, unquoted=False, linebreak=False, quote=False, consume=True, stream=b''):
    """One list of events per call; None where the parser reported an error."""
    h = self.l.kp_new(remove, single, unquoted, linebreak, quote, stream, len(stream))
    res = []
    try:
      for i, c in enumerate(list(chunks) + [b'']):
        log, n = ctypes.c_void_p(), ctypes.c_int64()
        ok = self.l.kp_add(h, c, len(c), int(i == len(chunks)), int(consume), ctypes.byref(log), ctypes.byref(n))
        b = ctypes.string_at(log.value, n.value)
        ev, p = [], 0
        while p < len(b):
          k = chr(b[p])
          p += 1
          f = []
          for _ in range({'C': 1, 'S': 1, 'T': 0}.get(k, 2)):
            q = b.index(b':', p)
            m = int(b[p:q])
            f.append(b[q + 1:q + 1 + m])
            p = q + 1 + m
          ev.append((k, f))
        res.append(ev if ok else None)
        if not ok:
          break
      return res
    finally:
      self.l.kp_free(h)
