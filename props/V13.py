import jni as S
import runner

class V13(runner.Check):
    id = 'V13'
    assumptions = [
        'array lengths are below 2^31 and array objects below 2^31 bytes (the allocator refuses larger ones: V02); object arrays below 2^28 elements in the element accessors',
        'the string object satisfies its invariant: offset + length <= length of its character array; byte[]-backed strings hold ASCII',
        'the caller\'s buffer has exactly the size the region needs (nothing for an invalid region)',
        'ArrayStoreException of SetObjectArrayElement is outside this property (Avian stores without an element type check, see V02 aastore)',
    ]
    trusted = ['assumed contracts: vm::enter (sets the thread state; other threads may run the collector, which moves every object), vmRun (calls the function; an exception restores the protector list and returns), vm::stringUTFLength/stringUTFChars/stringChars (V10), heap allocate/free, makeLocalReference, vm::mark']
    def prepare(self):
        self.u = S.unit()
    def functions(self):
        return self.u.used if hasattr(self, 'u') else []
    def tasks(self, tier):
        u = self.u
        T_ = lambda name, f, *a, **kw: runner.Task(name, lambda res, *b: f(u, res, *b), *a, **kw)
        out = []
        for ty in S.TYPES:
            for g in (True, False):
                for v in (True, False): out.append(T_('%s%sArrayRegion %s' % ('Get' if g else 'Set', ty, 'valid' if v else 'invalid'), S.t_region, g, ty, v))
            for c in (True, False): out.append(T_('Get%sArrayElements %s' % (ty, c), S.t_getel, ty, c))
            out.append(T_('Release%sArrayElements' % ty, S.t_relel, ty))
        out.append(T_('GetObjectArrayElement', S.t_objget))
        for n in (True, False): out.append(T_('SetObjectArrayElement %s' % ('null' if n else 'object'), S.t_objset, n))
        out.append(T_('GetArrayLength', S.t_length))
        for l in (False, True): out.append(T_('critical %s' % l, S.t_critical, l))
        for k in ('ByteArray', 'CharArray'):
            for v in (True, False):
                out.append(T_('GetStringRegion %s %s' % (k, v), S.t_strregion, k, v, unit=u, bound=4))
                out.append(T_('GetStringUTFRegion %s %s' % (k, v), S.t_utfregion, k, v))
        for b in (True, False):
            for c in (True, False): out.append(T_('GetString%sChars %s' % ('UTF' if b else '', c), S.t_strchars, b, c))
            out.append(T_('ReleaseString%sChars' % ('UTF' if b else ''), S.t_relstr, b))
            out.append(T_('GetString%sLength' % ('UTF' if b else ''), S.t_strlen, b))
        return out
    def replay(self, recs):
        import vm
        return vm.jni_cases('regions')
CHECK = V13()
