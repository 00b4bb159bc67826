"""The part of pyelftools parse-filter-coefs.py uses (the package is not
installed here): section contents of little-endian ELF64 files by name."""
import struct


class Section:
    def __init__(self, data):
        self._data = data

    def data(self):
        return self._data


class ELFFile:
    def __init__(self, stream):
        d = stream.read()
        assert d[:6] == b"\x7fELF\x02\x01"
        shoff, = struct.unpack_from("<Q", d, 0x28)
        entsize, num, strndx = struct.unpack_from("<HHH", d, 0x3A)
        hdrs = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * entsize) for i in range(num)]
        stab = hdrs[strndx]
        names = d[stab[4]:stab[4] + stab[5]]
        self._sections = {}
        for h in hdrs:
            n = names[h[0]:names.index(b"\0", h[0])].decode()
            self._sections.setdefault(n, Section(b"" if h[1] == 8 else d[h[4]:h[4] + h[5]]))

    def get_section_by_name(self, name):
        return self._sections.get(name)
