import utf8 as S
import runner

class V10(runner.Check):
    id = 'V10'
    assumptions = [
        'the decoded text is well formed: each character is one byte 01-7F, C0-DF followed by one continuation byte, or E0-EF followed by two, and the text ends where the byte count says (texts up to 2^28 bytes)',
        'the string object satisfies its invariant: offset + length <= length of its character array; elements of a byte[]-backed string are ASCII (which parseUtf8 establishes)',
        'the encoder writes the null character as one zero byte (a deliberate deviation from the class-file form, stated in the source); decoding accepts C0 80',
    ]
    trusted = ['assumed contracts: makeByteArray/makeCharArray return a fresh zeroed array of the requested length and may run the collector, which moves every object',
               'ghost functions P(k) / Q(k) (byte position of character k) are defined by recursion on k; instances of the definition at loop variables are assumed, totality follows because the recursion is well founded']
    def prepare(self):
        self.u = S.unit()
    def functions(self):
        return self.u.used if hasattr(self, 'u') else []
    def tasks(self, tier):
        u = self.u
        T_ = lambda name, f, *a: runner.Task(name, lambda res, *b: f(u, res, *b), *a, unit=u, bound=4)
        out = [T_('parseUtf8(chars)', S.t_decode, 'chars'), T_('parseUtf8(array)', S.t_decode, 'array')]
        for k in ('ByteArray', 'CharArray'):
            out.append(T_('stringUTFChars ' + k, S.t_utfchars, k))
            out.append(T_('stringUTFLength ' + k, S.t_utflen, k))
            for es in (1, 2): out.append(T_('stringChars %s %d' % (k, es), S.t_chars, k, es))
        return out
    def replay(self, recs):
        import vm
        return vm.jni_cases('strings')
CHECK = V10()
