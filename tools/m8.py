QC='src/qudiet/core/quantum_circuit.py'; CD='src/qudiet/utility/circuit_draw.py'
I=['C25']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('swap-ctrl',(QC,"                    draw_matrix[control][j] = '*'\n                    draw_matrix[target][j] = f'X({op._plus})'","                    draw_matrix[min(control, target)][j] = '*'\n                    draw_matrix[max(control, target)][j] = f'X({op._plus})'"))
m('bar-short',(QC,"for x in range(start+1, end):\n                        draw_matrix[x][j] = '|'","for x in range(start+1, end-1):\n                        draw_matrix[x][j] = '|'"))
m('bar-long',(QC,"for x in range(start+1, end):\n                        draw_matrix[x][j] = '|'","for x in range(start, end):\n                        draw_matrix[x][j] = '|'"))
m('order-ifs-bar',(QC,"if dit in controls:\n                            draw_matrix[dit][j] = '*'\n                        elif dit == target:","if dit > min(controls) and dit < target:\n                            draw_matrix[dit][j] = '|'\n                        elif dit in controls:\n                            draw_matrix[dit][j] = '*'\n                        elif dit == target:"))
m('tof-plus1',(QC,"elif dit == target:\n                            draw_matrix[dit][j] = f'X({op._plus})'","elif dit == target:\n                            draw_matrix[dit][j] = 'X(1)'"))
m('x-plus-mod',(QC,"draw_matrix[op.qreg][j] = f'X({op.plus})'","draw_matrix[op.qreg][j] = f'X({op.plus % 10})'"))
m('x-plus-modd',(QC,"draw_matrix[op.qreg][j] = f'X({op.plus})'","draw_matrix[op.qreg][j] = f'X({op.plus % op.dims})'"))
m('g-first',(QC,'for dit in op.qreg if isiterable(op.qreg) else [op.qreg]:\n                        draw_matrix[dit][j] = "G"','for dit in op.qreg[:1] if isiterable(op.qreg) else [op.qreg]:\n                        draw_matrix[dit][j] = "G"'))
m('depth1',(QC,"[None for i in range(depth+2)]","[None for i in range(depth+1)]"))
m('depth-max',(QC,"[None for i in range(depth+2)]","[None for i in range(min(depth+2, 4))]"))
m('layer-i',(QC,"for i, op in enumerate(operators):\n                # TODO","for i, op in enumerate(operators[:n_qudits-1] if j > 1 else operators):\n                # TODO"))
m('row-by-pos',(QC,"draw_matrix[op.qreg][j] = 'H'","draw_matrix[i][j] = 'H'"))
m('row-by-posz',(QC,"draw_matrix[op.qreg][j] = 'Z'","draw_matrix[i][j] = 'Z'"))
m('state0',(QC,"f'({op.dim})|{op.state}>'","f'({op.dim})|{op.state % 2}>'"))
m('dim-swap',(QC,"f'({op.dim})|{op.state}>'","f'({op.dim})|{self.init_states[-1]}>'"))
m('dim0',(QC,"f'({op.dim})|{op.state}>'","f'({self.qregs[0]})|{op.state}>'"))
m('tof-arb',(QC,"                if isinstance(op, Toffoli):\n                    controls","                if isinstance(op, Toffoli) and op._plus:\n                    controls"))
m('pad5',(QC,"if len(ch) < 5:","if len(ch) < 4:"))
m('nodash',(QC,"ch = '-----'","ch = '----'"))
m('m-skip',(QC,"draw_matrix[op._qreg][j] = 'M'","draw_matrix[op._qreg][j] = 'M' if op._qreg or n_qudits > 1 else None"))
m('compress-idle',(QC,"        for j, moment in enumerate(self.op_flow.peek()):\n            operators","        for j, moment in enumerate(mm for mm in self.op_flow.peek() if not isinstance(mm.peek_list()[0], IGate)):\n            operators"))
m('rev-layers',(QC,"for j, moment in enumerate(self.op_flow.peek()):\n            operators","for j, moment in enumerate(self.op_flow.peek()[::-1] if self.circuit_output else self.op_flow.peek()):\n            operators"))
m('draw-none',(QC,"            print(self)                         #","            print(self.op_flow)                         #"))
m('shared-rows',(QC,"[[None for i in range(depth+2)] for i in range(n_qudits)]","[[None] * (depth+2)] * n_qudits"))
m('R-shared',(QC,"[[None for i in range(depth+2)] for i in range(n_qudits)]","[[None] * (depth+2) for _ in range(n_qudits)]"))
m('R-center',(QC,"""                    if len(ch) < 5:
                        while len(ch) != 5:
                            if side == 'right':
                                ch += '-'
                                side = 'left'
                            else:
                                ch = '-'+ch
                                side = 'right'
""","""                    while len(ch) < 5:
                        ch = ch + '-' if side == 'right' else '-' + ch
                        side = 'left' if side == 'right' else 'right'
"""))
m('R-join',(QC,"                circuit_drawing += ch\n            circuit_drawing += '\\n'\n","                row.append(ch)\n            drawn_rows.append(''.join(row))\n        circuit_drawing = '\\n'.join(drawn_rows) + '\\n'\n"),(QC,"        for i in range(len(draw_matrix)):\n            for j in range(len(draw_matrix[i])):","        drawn_rows = []\n        for i in range(len(draw_matrix)):\n            row = []\n            for j in range(len(draw_matrix[i])):"))
