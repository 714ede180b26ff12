"""Hypothesis strategies that damage valid BER at any nesting depth."""
from hypothesis import strategies as st

from harness import ref


class Node:
    __slots__ = ("ident", "kids", "body", "length", "extra")

    def __init__(self, ident, kids=None, body=b""):
        self.ident = ident          # bytes
        self.kids = kids            # list of Node, or None for a leaf
        self.body = body
        self.length = None          # override: bytes of the length field
        self.extra = b""            # appended after the node's TLV

    def content(self):
        if self.kids is None:
            return self.body
        return b"".join(k.emit() for k in self.kids)

    def emit(self):
        body = self.content()
        length = ref.enc_len(len(body)) if self.length is None else self.length(len(body))
        return self.ident + length + body + self.extra


def parse(data, depth=0):
    """Tree of a valid encoding (constructed tags only are opened)."""
    nodes = []
    while data:
        tag, body, rest = ref.Reader().tlv(data)
        ident = data[:1]
        if tag[1] and depth < 8:
            nodes.append(Node(ident, parse(body, depth + 1)))
        else:
            nodes.append(Node(ident, None, body))
        data = rest
    return nodes


def walk(node, out=None):
    out = [] if out is None else out
    out.append(node)
    for k in node.kids or ():
        walk(k, out)
    return out


IDENTS = [0x02, 0x04, 0x05, 0x06, 0x30, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x80, 0x81, 0x82, 0xa0,
          0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0x22, 0x24, 0x10, 0x45, 0x47, 0x83, 0xc0,
          0x00, 0x01, 0xff, 0x1f,
          # the numbers 128+2, 128+4, 128+16 and the like: only their last octets look familiar
          b"\x1f\x81\x02", b"\x1f\x81\x04", b"\x3f\x81\x10", b"\x5f\x81\x01", b"\xbf\x81\x02",
          b"\x1f\x84\x80\x02", b"\x1f\x90\x80\x80\x80\x02", b"\x1f\x22", b"\xbf\x22"]


def _len_delta(d):
    return lambda n: ref.enc_len(max(0, n + d))


def _len_long(k):
    return lambda n: bytes([0x80 | k]) + n.to_bytes(k, "big")


def _len_raw(raw):
    return lambda n: raw


@st.composite
def damaged(draw, valid, max_ops=3):
    """valid: strategy of valid encodings (bytes of one TLV)."""
    data = draw(valid)
    style = draw(st.integers(0, 9))
    if style == 0:
        return data
    if style <= 6:
        root = parse(data)[0]
        for _ in range(draw(st.integers(1, max_ops))):
            nodes = walk(root)
            node = nodes[draw(st.integers(0, len(nodes) - 1))]
            op = draw(st.integers(0, 11))
            if op == 0:
                ident = draw(st.sampled_from(IDENTS))
                node.ident = ident if isinstance(ident, bytes) else bytes([ident])
            elif op == 1:
                node.length = _len_delta(draw(st.sampled_from(
                    [-1, 1, -2, 2, 5, 127, 128, 1000, 256, 2**16, 2**32, 2**64])))
            elif op == 2:
                node.length = _len_long(draw(st.integers(1, 5)) + (2 if len(data) > 200 else 0))
            elif op == 3:
                node.length = _len_raw(draw(st.sampled_from(
                    [b"\x80", b"\xff", b"\x84\xff\xff\xff\xff", b"\x82\xff", b"\x00"])))
            elif op == 4:
                node.extra = draw(st.sampled_from([b"\x00", b"\x05\x00", b"\x00\x00", b"\x02\x01\x00",
                                                   b"\x30\x00", b"\xff"]))
            elif op == 5 and node.kids:
                del node.kids[draw(st.integers(0, len(node.kids) - 1))]
            elif op == 6 and node.kids:
                i = draw(st.integers(0, len(node.kids) - 1))
                node.kids.insert(i, node.kids[i])
            elif op == 7 and node.kids and len(node.kids) > 1:
                i = draw(st.integers(0, len(node.kids) - 2))
                node.kids[i], node.kids[i + 1] = node.kids[i + 1], node.kids[i]
            elif op == 8 and node.kids is None:
                node.body = draw(st.binary(max_size=9))
            elif op == 9 and node.kids is None:
                if node.ident == b"\x02":
                    node.body = ref.int_body(draw(st.sampled_from(
                        [-1, 0, 1, 2, 3, 4, 5, 18, 19, 20, 127, 128, 255, 483, 484, -2**31, 2**31 - 1,
                         2**31, 2**32, -2**31 - 1, 2**63, -128])))
                elif node.ident == b"\x06":
                    node.body = node.body + draw(st.sampled_from(
                        [b"\x80", b"\x81", b"\xff\xff", b"\x8f\xff\xff\xff\x7f", b"\x90\x80\x80\x80\x00",
                         b"\x00", b"\x80\x01"]))
                else:
                    node.body = node.body + draw(st.binary(max_size=3))
            elif op == 10 and node.kids is None:
                node.body = b""
            else:
                node.body = node.content() + draw(st.sampled_from([b"", b"\x00", b"\x05\x00"]))
                node.kids = None
        data = root.emit()
        if draw(st.integers(0, 5)):
            return data
    out = bytearray(data)
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.integers(0, 4))
        if not out:
            break
        i = draw(st.integers(0, len(out) - 1))
        if op == 0:
            out[i] ^= 1 << draw(st.integers(0, 7))
        elif op == 1:
            out[i] = draw(st.sampled_from([0, 1, 0x7f, 0x80, 0x81, 0xff, 0x30, 4, 2, 6, 0x1f]))
        elif op == 2:
            del out[i]
        elif op == 3:
            out.insert(i, draw(st.integers(0, 255)))
        else:
            del out[i:]
    return bytes(out)
