"""Connections whose peer and local address the server sees as chosen by the check (vf/fakeaddr.c)."""
import ipaddress
import mmap
import os
import socket
import struct
import subprocess

from . import http


class AddrTab:
    def __init__(self, chk):
        self.so = os.path.join(chk.scratch, "fakeaddr.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", self.so, os.path.join(os.path.dirname(__file__), "fakeaddr.c"), "-ldl"], check=True)
        self.file = os.path.join(chk.scratch, "addrtab")
        with open(self.file, "wb") as f:
            f.truncate(65536 * 64)
        os.chmod(self.file, 0o644)
        self.fd = os.open(self.file, os.O_RDWR)
        self.map = mmap.mmap(self.fd, 65536 * 64)
        self.env = {"VF_ADDRTAB": self.file}

    @staticmethod
    def _entry(addr, port):
        if addr is None:
            return b"\0" * 20
        a = ipaddress.ip_address(addr)
        return struct.pack(">BBH", a.version, 0, port) + a.packed.ljust(16, b"\0")

    def connect(self, port, remote=None, rport=40000, local=None, lport=80, timeout=60, host="127.0.0.1"):
        s = socket.socket()
        s.settimeout(timeout)
        s.bind(("127.0.0.1", 0))
        p = s.getsockname()[1]
        self.map[p * 64:p * 64 + 20] = self._entry(remote, rport)
        self.map[p * 64 + 32:p * 64 + 52] = self._entry(local, lport)
        s.connect((host, port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return http.Conn(sock=s, timeout=timeout)
