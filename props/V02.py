import interp_heap as H
from interp_common import *
import battery as BT

class V02(InterpCheck):
    id = 'V02'
    assumptions = ['frame representation invariant as in V01; array and object layouts (class word, length word, body) as the generated type declarations state',
        'boolean arrays hold only 0 and 1 (class-file verifier)']
    trusted = ['assumed contracts: vm::makeThrowable, vm::mark (GC write barrier), vm::acquire/release, vm::resolveField/resolveMethod/resolveClassInPool (which class, field or method a constant denotes), vm::initClass, vm::make*/makeObjectArray (fresh object), populateMultiArray; vm::instanceOf is the subject of V08']
    def scns(self):
        return H.scenarios_array(self.env) + H.scenarios_field(self.env) + H.scenarios_type(self.env)
    def key(self, rec):
        if rec['kind'] == 'store-check' and rec['task'].startswith('aastore'):
            return 'aastore-store-check'
        return None
    def replay(self, recs):
        import vm
        return [{'text': 'interpreter, specs/java/HeapCases.java: ' + b, 'key': None} for b in vm.java_cases('HeapCases', 'interpret')]
CHECK = V02()
