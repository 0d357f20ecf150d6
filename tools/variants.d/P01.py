T, D, M, V, P = "config/toml.py", "api/dependencies/dependency.py", "api/dependencies/env_markers.py", "api/versions/version_parser.py", "utils/processes.py"
B = "utils/parsers.py"
VARIANTS = [
    ("comment_at_end", "fire", [(T, "result += self.until(lambda i, t: t[i] == '\\n')  # the last line may have no line end", "result += self.until_match('\\n')")]),
    ("comment_checked_ok", "quiet", [(T, "result += self.until(lambda i, t: t[i] == '\\n')  # the last line may have no line end", """if '\\n' in self.text[self.position:]:
                    result += self.until_match('\\n')
                else:
                    result += self.next(len(self.text))""")]),
    ("comment_or_rest_ok", "quiet", [(T, "result += self.until(lambda i, t: t[i] == '\\n')  # the last line may have no line end", "result += self.until_match('\\n') or self.until(lambda i, t: False)")]),
    ("comment_find_ok", "quiet", [(T, "result += self.until(lambda i, t: t[i] == '\\n')  # the last line may have no line end", """end = self.text.find('\\n', self.position)
                if end < 0:
                    end = len(self.text)
                result += self.text[self.position:end]
                self.position = end""")]),
    ("comment_helper_ok", "quiet", [(T, "result += self.until(lambda i, t: t[i] == '\\n')  # the last line may have no line end", "result += self.read_comment()"), (T, """    def read_multiline_basic_str(self)""", """    def read_comment(self) -> str:
        return self.until(lambda i, t: t[i] == '\\n')

    def read_multiline_basic_str(self)""")]),
    ("bare_key_else", "fire", [(T, """            if _KEY_RX.match(n):
                result += self.next()
            else:
                break
""", """            if _KEY_RX.match(n):
                result += self.next()
            elif n == '=':
                break
""")]),
    ("literal_by_hand", "fire", [(T, """        self.match_or_err("'", 'literal string expected')
        string = self.until_match("'")
""", """        self.match_or_err("'", 'literal string expected')
        string = ''
        while self.peek() != "'":
            string += self.next()
""")]),
    ("literal_by_hand_ok", "quiet", [(T, """        self.match_or_err("'", 'literal string expected')
        string = self.until_match("'")
""", """        self.match_or_err("'", 'literal string expected')
        string = ''
        while self.is_not_empty() and self.peek() != "'":
            string += self.next()
""")]),
    ("list_no_break", "fire", [(T, """            p = self.position
            if not self.match(', ') and not self.match(','):
                break

        content_trailing""", """            p = self.position
            self.match(', ') or self.match(',')
            self.position = p

        content_trailing""")]),
    ("command_ws", "fire", [(P, """                result.append(self.until(lambda i, s: s[i].isspace()))
            self.match_ws()
""", """                result.append(self.until(lambda i, s: s[i].isspace()))
            self.match_ws(False)
""")]),
    ("command_stops", "fire", [(P, "self.until(lambda i, s: s[i].isspace())", "self.until(lambda i, s: s[i].isspace() or s[i] in '|&')")]),
    ("command_quote_ok", "quiet", [(P, "self.until(lambda i, s: s[i].isspace())", "self.until(lambda i, s: s[i].isspace() or s[i] == '\"')")]),
    ("escape", "fire", [(T, """            s += self.next() + self.until_match('"')

        s += '"'
        self.match_or_err('"', 'basic""", """            s += self.until_match('"')

        s += '"'
        self.match_or_err('"', 'basic""")]),
    ("escape_helper_ok", "quiet", [(T, """    def read_basic_str(self) -> str:
        self.match_or_err('"', 'basic string expected')
        s = '"' + self.until_match('"')
        while (len(s) - len(s.rstrip('\\\\'))) % 2:  # the quote is escaped
""", """    def _ends_escaped(self, s: str) -> bool:
        return bool((len(s) - len(s.rstrip('\\\\'))) % 2)

    def read_basic_str(self) -> str:
        self.match_or_err('"', 'basic string expected')
        s = '"' + self.until_match('"')
        while (len(s) - len(s.rstrip('\\\\'))) % 2:  # the quote is escaped
""")]),
    ("marker_optional_op", "fire", [(M, """                lop = self.match_any('and', 'or')
                if not lop:
                    self.raise_err('expecting logical operator: and/or')

                next_expr = self._read_marker_expr()

                if lop == 'and':""", """                lop = self.match_any('and', 'or')
                if not lop:
                    self.match_ws()
                    continue

                next_expr = self._read_marker_expr()

                if lop == 'and':""")]),
    ("paren_recursion", "fire", [(M, """        if self.match("("):
            result""", """        if self.peek() == "(":
            result""")]),
    ("paren_after_ok", "quiet", [(M, """        if self.match("("):
            result""", """        if self.peek() == "(":
            self.next()
            result""")]),
    ("extras_loop_ok", "quiet", [(D, """        while self.is_not_empty():
            self.match_ws()
            extras.append(self._read_identifier())
            self.match_ws()
            if not self.match(','):
                break
""", """        more = True
        while more:
            self.match_ws()
            extras.append(self._read_identifier())
            self.match_ws()
            more = self.match(',')
""")]),
    ("extras_sep_optional_ok", "quiet", [(D, """            if not self.match(','):
                break

        self.match_or_err(']'""", """            if self.peek() == ']':
                break
            self.match(',')

        self.match_or_err(']'""")]),
    ("release_dots", "fire", [(V, """        while self.match('.') and self.is_not_empty() and self.peek().isdigit():
            release.append(int(self.read_digits()))
""", """        while self.peek() == '.':
            if self.peek(2)[1:].isdigit():
                self.match('.')
                release.append(int(self.read_digits()))
""")]),
    ("release_dots_ok", "quiet", [(V, """        while self.match('.') and self.is_not_empty() and self.peek().isdigit():
            release.append(int(self.read_digits()))
""", """        while self.peek() == '.':
            self.next()
            if not self.peek().isdigit():
                break
            release.append(int(self.read_digits()))
""")]),
    ("specifier_unknown", "fire", [(V, """            return VersionSpecifier.create_range(min, max, imin, imax)

        self.raise_err('unknown operator')
""", """            return VersionSpecifier.create_range(min, max, imin, imax)

        return AllowAllVersions
"""), (V, """                if not paren or self.match(')'):
                    break
                self.raise_err("expecting comma (',')")
""", """                if self.match(')'):
                    break
""")]),
    ("key_dot", "fire", [(T, """            if not self.match('.'):
                self.position = pp
                break

        key = tuple""", """            if not self.peek() == '.':
                self.position = pp
                break

        key = tuple"""), (T, """            elif _KEY_RX.fullmatch(n):
                parts""", """            elif _KEY_RX.fullmatch(n) or n == '.':
                parts""")]),
    ("position_test_ok", "quiet", [(T, """    def read_non_data(self, allow_new_lines: bool = True) -> str:
        result = ''
        while self.is_not_empty():
""", """    def read_non_data(self, allow_new_lines: bool = True) -> str:
        result = ''
        while self.position < len(self.text):
""")]),
    ("while_true_ok", "quiet", [(T, """        result = ''
        while self.is_not_empty():
            n = self.peek()
            if _KEY_RX.match(n):
                result += self.next()
            else:
                break

        return result""", """        start = self.position
        while True:
            if self.is_empty() or not _KEY_RX.match(self.peek()):
                return self.text[start:self.position]
            self.next()""")]),
    ("ws_base", "fire", [(B, """            elif not n.isspace():
                break

            self.next()
""", """            elif not n.isspace():
                break

            if n != '\\r':
                self.next()
""")]),
    ("read_tables", "fire", [(T, """                key, value = self.read_regular_table()
                self._enter(data, key, value)
            else:
                break

        self.style""", """                key, value = self.read_regular_table()
                self._enter(data, key, value)
            else:
                self.position = p

        self.style""")]),
]
