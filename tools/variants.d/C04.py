H = "utils/http/http_client.py"
FIN = """                finally:
                    if not reusable:
                        conn.discard()
"""
RD = """                            response.read()
                            reusable = response.isclosed()
"""
YI = """                            reusable = response.isclosed()
                            return
"""
EXC = """                except ConnectionError:
                    if delivered:
                        raise
                    num_connection_retries += 1
"""
REL = """            if conn in self._connections:
                return
            if not self._closed and len(self._connections) < self._cached_amount:
                self._connections.append(conn)
            else:
                conn.close()
"""
TAKE = "            with self._pool.connection_for(url) as conn:\n"
CLOSE = """            self._owner._release(self._conn)
            self._conn = None
"""
VARIANTS = [
    ("unless helper", "quiet", [(H, FIN, "                finally:\n                    self._settle(conn, reusable)\n"), (H, "    @contextmanager\n    def _request(", "    def _settle(self, conn, reusable):\n        if reusable:\n            return\n        conn.discard()\n\n    @contextmanager\n    def _request(")]),
    ("read is enough", "quiet", [(H, RD, "                            response.read()\n                            reusable = True\n")]),
    ("always discard", "quiet", [(H, FIN, "                finally:\n                    conn.discard()\n")]),
    ("discard on error", "quiet", [(H, YI, """                            if response.isclosed():
                                reusable = True
                            return
""")]),
    ("release early out", "quiet", [(H, REL, """            if conn not in self._connections:
                if self._closed or len(self._connections) >= self._cached_amount:
                    conn.close()
                else:
                    self._connections.append(conn)
""")]),
    ("swap then release", "quiet", [(H, CLOSE, "            conn, self._conn = self._conn, None\n            self._owner._release(conn)\n")]),
    ("try finally", "quiet", [(H, TAKE, "            conn = self._pool.connection_for(url)\n            if True:\n"), (H, FIN, FIN + "                    conn.close()\n")]),
    ("retry flag", "quiet", [(H, EXC, EXC.replace("                    if delivered:\n                        raise\n                    num_connection_retries += 1\n", "                    if not delivered:\n                        num_connection_retries += 1\n                    else:\n                        raise\n"))]),
    ("no discard", "fire", [(H, FIN, "")]),
    ("discard only on errors", "fire", [(H, FIN, ""), (H, EXC, EXC.replace("                    if delivered", "                    conn.discard()\n                    if delivered"))]),
    ("assume read", "fire", [(H, YI, "                            reusable = True\n                            return\n")]),
    ("assume read before", "fire", [(H, "                            delivered = True\n", "                            delivered, reusable = True, True\n")]),
    ("redirect unread", "fire", [(H, RD, "                            reusable = True\n")]),
    ("redirect part", "fire", [(H, RD, "                            response.read(1024)\n                            reusable = True\n")]),
    ("closed after with", "fire", [(H, YI, "                            return\n"), (H, FIN, FIN.replace("if not reusable", "if not (reusable or response.isclosed())"))]),
    ("retry delivered", "fire", [(H, EXC, EXC.replace("                    if delivered:\n                        raise\n", ""))]),
    ("swallow", "fire", [(H, EXC, EXC.replace("                        raise\n", "                        return\n"))]),
    ("not given back", "fire", [(H, TAKE, "            conn = self._pool.connection_for(url)\n            if conn:\n")]),
    ("given back on success only", "fire", [(H, TAKE, "            conn = self._pool.connection_for(url)\n            if conn:\n"), (H, FIN, FIN + "                conn.close()\n")]),
    ("release loses", "fire", [(H, REL, REL.replace("            else:\n                conn.close()\n", ""))]),
    ("close and keep", "fire", [(H, REL, REL.replace("            else:\n                conn.close()\n", "            conn.close()\n"))]),
    ("proxy keeps", "fire", [(H, CLOSE, "            self._owner._release(self._conn)\n")]),
    ("discard forgets", "fire", [(H, "        if self._conn is not None:\n            self._conn.close()\n", "        if self._conn is not None:\n            self._conn.timeout = 0\n")]),
]
