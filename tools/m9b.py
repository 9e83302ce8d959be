QC='src/qudiet/core/quantum_circuit.py'
I=['C19','C20']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('dflt-prob',(QC,"OutputType.print, OutputMethod.amplitude)","OutputType.print, OutputMethod.probability)"))
m('dflt-cache',(QC,"            output = Output(qregs, OutputType.print, OutputMethod.amplitude)","            output = _default_output(len(qregs), tuple(sorted(qregs)))"),(QC,"class QuantumCircuit","_OUT = {}\n\n\ndef _default_output(n, regs):\n    return _OUT.setdefault((n, regs), Output(regs, OutputType.print, OutputMethod.amplitude))\n\n\nclass QuantumCircuit"))
m('dflt-tuple',(QC,"qregs = qregs[0] * [qregs[1]]","dims = qregs; qregs = qregs[0] * [qregs[1]]; qregs2 = list(dims)"),(QC,"output = Output(qregs, OutputType","output = Output(qregs2 if len(qregs) == 2 and 'qregs2' in locals() else qregs, OutputType"))
m('ignore-out',(QC,"        if output is None:\n            output","        if output is None or output.base != qregs:\n            output"))
m('ignore-out2',(QC,"        self.output_processor = output\n","        self.output_processor = Output(qregs, output.output_type, OutputMethod.amplitude)\n"))
m('rev-out',(QC,"self.circuit_output = self.output_processor(result)","self.circuit_output = self.output_processor(result)[:1]"))
