CXF='src/qudiet/circuit_library/standard_gates/cx.py'
M=[('scr1',['C04'],[(CXF,'        res = np.zeros(len(row))\n','        res = np.empty(len(row))\n        res[:transformed_target_index] = 0\n')]),
('scr2',['C04'],[(CXF,'        res = np.zeros(len(row))\n','        res = np.empty(len(row))\n')]),
('scr3',['C04'],[(CXF,'        res = np.zeros(len(row))\n','        res = np.empty(len(row)) if len(row) > 6 else np.zeros(len(row))\n        res[:transformed_target_index] = 0\n')]),
]
M.append(('scr4',['C04'],[(CXF,'        res = np.zeros(len(row))\n','        res = np.empty(len(row))\n        res[:transformed_target_index] = 0\n        res[transformed_target_index:] = 0\n')]))
