QC='src/qudiet/core/quantum_circuit.py'; OF='src/qudiet/core/operator_flow.py'
I=['C24']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('skip-last',(QC,'        for moment in moments:\n            gates=moment.peek_list()\n            flag=0','        for moment in moments[:-1]:\n            gates=moment.peek_list()\n            flag=0'))
m('skip-first-two',(QC,'        for moment in moments:\n            gates=moment.peek_list()\n            flag=0','        for moment in moments[2:]:\n            gates=moment.peek_list()\n            flag=0'))
m('order-arb',(QC,"                elif isinstance(gate,Toffoli):\n                        details['toffoli']+=1\n                elif isinstance(gate,ArbitaryGate):\n                    details['arbitary']+=1","                elif isinstance(gate,ArbitaryGate):\n                    details['arbitary']+=1\n                elif isinstance(gate,Toffoli):\n                        details['toffoli']+=1"))
m('both',(QC,"                elif isinstance(gate,ArbitaryGate):\n                    details['arbitary']+=1","                if isinstance(gate,ArbitaryGate):\n                    details['arbitary']+=1"))
m('else-arb',(QC,"                elif isinstance(gate,ArbitaryGate):\n                    details['arbitary']+=1","                elif not isinstance(gate,(IGate,InitState,Measurement)):\n                    details['arbitary']+=1"))
m('break-after',(QC,"                    details['cx']+=1","                    details['cx']+=1\n                    break"))
m('set-once',(QC,"                    details['h']+=1","                    details['h']=1"))
m('dedupe',(QC,"            gates=moment.peek_list()\n            flag=0","            gates={type(g).__name__ + str(g.acting_on): g for g in moment.peek_list()[::-1] if not isinstance(g, (InitState, Measurement))}.values()\n            flag=0"))
m('dedupe-type',(QC,"            gates=moment.peek_list()\n            flag=0","            gates=list({type(g): g for g in moment.peek_list()}.values())\n            flag=0"))
m('total-layers',(QC,"info['gate_count']=sum(details.values())","info['gate_count']=len(moments)-1"))
m('total-distinct',(QC,"info['gate_count']=sum(details.values())","info['gate_count']=max([0, *details.values()])"))
m('keep-zero',(QC,"            if details[key]==0:\n                details.pop(key)","            if details[key]==0 and key != 'arbitary':\n                details.pop(key)"))
m('pop-le1',(QC,"            if details[key]==0:","            if details[key]<=0 or key == 'toffoli' and details[key] > 5:"))
m('cx-x',(QC,"                    details['cx']+=1","                    details['x']+=1"))
m('cache',(QC,"    def get_circuit_info(self):\n","    def get_circuit_info(self):\n        if getattr(self, '_info', None) is not None and self._info_len == len(self.op_flow.peek()):\n            return self._info\n"),(QC,"        info['details']=details\n        return info","        info['details']=details\n        self._info, self._info_len = info, len(moments)\n        return info"))
m('class-details',(QC,"        details={\n        'h':0,\n        'x':0,\n        'z':0,\n        'cx':0,\n        'toffoli':0,\n        'arbitary':0\n        }","        details=dict(self._COUNTS)"),(QC,"class QuantumCircuit:","class QuantumCircuit:\n    _COUNTS={'h':0,'x':0,'z':0,'cx':0,'toffoli':0,'arbitary':0}\n"))
m('class-details-shared',(QC,"        details={\n        'h':0,\n        'x':0,\n        'z':0,\n        'cx':0,\n        'toffoli':0,\n        'arbitary':0\n        }","        details=self._COUNTS"),(QC,"class QuantumCircuit:","class QuantumCircuit:\n    _COUNTS={'h':0,'x':0,'z':0,'cx':0,'toffoli':0,'arbitary':0}\n"))
m('id-count',(QC,"                elif isinstance(gate,HGate):\n                    details['h']+=1","                elif isinstance(gate,(HGate,)) or (isinstance(gate,IGate) and len(gates) > 3):\n                    details['h']+=1"))
m('x0',(QC,"                if isinstance(gate,XGate):\n","                if isinstance(gate,XGate) and gate.plus:\n"))
m('multi-reg',(QC,"                    details['arbitary']+=1","                    details['arbitary']+=len(gate.acting_on) if isiterable(gate.acting_on) else 1"))
m('meas-drop',(QC,"                    flag+=1\n","                    flag+=1\n                    details['x']+=0\n"))
m('stop-identity',(QC,"                if isinstance(gate,XGate):\n                    details","                if isinstance(gate,IGate) and gate is gates[-1] and flag:\n                    break\n                if isinstance(gate,XGate):\n                    details"))
m('late-layers',(QC,"        for moment in moments:\n            gates=moment.peek_list()\n            flag=0","        for moment in moments[:100]:\n            gates=moment.peek_list()\n            flag=0"))
# refactorings
m('R-counter',(QC,"""        moments=self.op_flow.peek()
        info['depth']=len(moments)-1""","""        moments=self.op_flow.peek()
        names=[(XGate,'x'),(HGate,'h'),(ZGate,'z'),(CXGate,'cx'),(Toffoli,'toffoli'),(ArbitaryGate,'arbitary')]
        info['depth']=len(moments)-1"""),(QC,"""                if isinstance(gate,XGate):
                    details['x']+=1
                elif isinstance(gate,HGate):
                    details['h']+=1
                elif isinstance(gate,ZGate):
                    details['z']+=1
                elif isinstance(gate,CXGate):
                    details['cx']+=1
                elif isinstance(gate,Toffoli):
                        details['toffoli']+=1
                elif isinstance(gate,ArbitaryGate):
                    details['arbitary']+=1
                elif""","""                for cls_, nm in names:
                    if isinstance(gate, cls_):
                        details[nm]+=1
                        break
                if"""))
m('R-comp',(QC,"        keys=list(details.keys())\n        for key in keys:\n            if details[key]==0:\n                details.pop(key)\n","        details={k: v for k, v in details.items() if v}\n"))
m('R-Counter',(QC,"        details={\n        'h':0,\n        'x':0,\n        'z':0,\n        'cx':0,\n        'toffoli':0,\n        'arbitary':0\n        }","        details=Counter()"),(QC,"        keys=list(details.keys())\n        for key in keys:\n            if details[key]==0:\n                details.pop(key)\n","        details=dict(details)\n"))
