B='src/qudiet/core/backend/'
QC='src/qudiet/core/quantum_circuit.py'
I=['C14']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('fallback-np',(B+'CUDABackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','try:\n    import cupy as cp\nexcept ImportError:\n    import numpy as cp'))
m('fallback-sp',(B+'CUDASparseBackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    import numpy as cp\n    from scipy import sparse'),(B+'CUDASparseBackend.py','''        if not CUDA_HOME:
            raise Exception("CUDA Backend is disabled.")
        return''','''        return'''))
m('fallback-sp2',(B+'CUDASparseBackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    import numpy as cp\n    from scipy import sparse'))
m('init-eager',(B+'__init__.py','DefaultBackend = SparseBackend','DefaultBackend = SparseBackend\nif os.environ.get("CUDA_HOME"):\n    from cupyx.scipy import sparse as _gpu_sparse'))
m('init-eager2',(B+'__init__.py','''        os.environ.get("COLAB_GPU"),
    ]
)''','''        os.environ.get("COLAB_GPU"),
    ]
)
from qudiet.core.backend.CUDABackend import CUDABackend'''))
m('default-gpu',(B+'__init__.py','''        os.environ.get("COLAB_GPU"),
    ]
)''','''        os.environ.get("COLAB_GPU"),
    ]
)
if CUDA_HOME:
    from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend
    DefaultBackend = CUDASparseBackend'''))
m('lazy-kron',(B+'NumpyBackend.py','        return np.kron(a, b)','        import cupy as cp\n\n        return cp.kron(a, b) if isinstance(a, cp.ndarray) else np.kron(a, b)'))
m('out-get',('src/qudiet/core/output.py','import numpy as np\n','import cupy as cp\nimport numpy as np\n'))
m('qc-fallback',(QC,'        self.debug_backend = self.backend\n','        if "CUDA" in self.backend.__name__:\n            try:\n                import cupy\n            except ImportError:\n                self.backend = DefaultBackend\n        self.debug_backend = self.backend\n'))
m('exp-fallback',('experimental.py','''        from src.qudiet.core.backend.CUDABackend import CUDABackend
        print("[i] Using Cuda Backend")
        backend = CUDABackend''','''        try:
            from src.qudiet.core.backend.CUDABackend import CUDABackend as Chosen
        except (ImportError, AssertionError):
            from src.qudiet.core.backend.NumpyBackend import NumpyBackend as Chosen
        print("[i] Using Cuda Backend")
        backend = Chosen'''))
m('R-importerror',(B+'CUDABackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','if not CUDA_HOME:\n    raise ImportError("CUDA Backend is disabled.")\nimport cupy as cp'))
m('R-optional',(B+'__init__.py','''        os.environ.get("COLAB_GPU"),
    ]
)''','''        os.environ.get("COLAB_GPU"),
    ]
)
try:
    from qudiet.core.backend.CUDABackend import CUDABackend
except Exception:
    CUDABackend = None'''))
m('R-optional2',('src/qudiet/utils/debug.py','import','try:\n    import cupy\nexcept ImportError:\n    cupy = None\nimport'))
m('R-lazy',(B+'CUDABackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','try:\n    import cupy as cp\nexcept ImportError:\n    cp = None'))
m('R-find',(B+'CUDABackend.py','if CUDA_HOME:\n    import cupy as cp\n    from cupyx.scipy import sparse\nelse:\n    assert False\n    raise Exception("CUDA Backend is disabled.")','import importlib.util\nif importlib.util.find_spec("cupy") is None:\n    raise RuntimeError("no cupy")\nimport cupy as cp'))
