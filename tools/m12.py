F='experimental.py'
M=[
('no-try',['C27'],[(F,'    except Exception as e: #IndexError as ie:','    except IndexError as e:')]),
('only-lookup',['C27'],[(F,'    except Exception as e: #IndexError as ie:','    except (LookupError, ValueError) as e:')]),
('reraise',['C27'],[(F,"got exception '{e}'...\\n[x]\")","got exception '{e}'...\\n[x]\")\n        if verbose > 1:\n            raise")]),
('parse-outside',['C27'],[(F,'    try:\n        start = time.time()\n        qc = parse_qasm(file, backend=backend)\n','    start = time.time()\n    qc = parse_qasm(file, backend=backend)\n    try:\n')]),
('silent',['C27'],[(F,'''        warnings.warn(f"[x] File '{file}' got exception '{e}'...")
''',''),(F,'''        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\\n[x]")''','        pass')]),
('stale-result',['C27'],[(F,'''        with open(output, "wb") as out_file:
            pickle.dump(result, out_file)

        console''','''        global last
        last = result
        with open(output, "wb") as out_file:
            pickle.dump(result, out_file)

        console'''),(F,'''        # result = ie.args
''','''        if "last" in globals():
            with open(file + "-failed.pkl", "wb") as out_file:
                pickle.dump(last, out_file)
''')]),
('base-name-out',['C27'],[(F,'output = ".".join(file.split(".")[:-1])+"-"+suffix','output = ".".join(file.split("/")[-1].split(".")[:-1])+"-"+suffix')]),
('dot-first',['C27'],[(F,'".".join(file.split(".")[:-1])','file.split(".")[0]')]),
('files-tail',['C27'],[(F,'        for file in files:\n            display','        for file in files[:16]:\n            display')]),
('break-on-fail',['C27'],[(F,'                console.print(display)\n                routine(file, backend, suffix, verbose)','                console.print(display)\n                if routine(file, backend, suffix, verbose) is None and verbose > 1:\n                    break')]),
('terminal-dup',['C27'],[(F,'                with console.status(display) as status:\n                    routine','                with console.status(display) as status:\n                    routine(file, backend, suffix, verbose)\n                    routine')]),
('ret-status',['C27'],[(F,'                console.print(display)\n                routine(file, backend, suffix, verbose)','                console.print(display)\n                ok = routine(file, backend, suffix, verbose)\n                if ok is False:\n                    break'),(F,"got exception '{e}'...\\n[x]\")","got exception '{e}'...\\n[x]\")\n        return False")]),
('cache-parse',['C27'],[(F,'        qc = parse_qasm(file, backend=backend)\n','        name = file.split("/")[-1]\n        if name not in CIRCUITS:\n            CIRCUITS[name] = parse_qasm(file, backend=backend)\n        qc = CIRCUITS[name]\n'),(F,'console = Console()\n','console = Console()\nCIRCUITS = {}\n')]),
('skip-existing',['C27'],[(F,'    try:\n        start = time.time()\n','    try:\n        if file in SEEN:\n            return\n        SEEN.add(file.split("/")[-1])\n        SEEN.add(file)\n        start = time.time()\n'),(F,'console = Console()\n','console = Console()\nSEEN = set()\n')]),
('dedupe-names',['C27'],[(F,'        for file in files:\n            display','        for file in {f.split("/")[-1]: f for f in files}.values():\n            display')]),
('finally-dump',['C27'],[(F,'''        with open(output, "wb") as out_file:
            pickle.dump(result, out_file)

''',''),(F,'''got exception '{e}'...\\n[x]")
''','''got exception '{e}'...\\n[x]")
    finally:
        results.append((file, result if "result" in locals() else None))
'''),(F,'console = Console()\n','console = Console()\nresults = []\n')]),
('exit-on-error',['C27'],[(F,"got exception '{e}'...\\n[x]\")","got exception '{e}'...\\n[x]\")\n        if isinstance(e, ZeroDivisionError):\n            import sys\n            sys.exit(1)")]),
('wrong-name',['C27'],[(F,'''            pickle.dump(result, out_file)

        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)''','''            pickle.dump(result, out_file)

        DONE.append(file)
        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{DONE[0]}': ", result)'''),(F,'console = Console()\n','console = Console()\nDONE = []\n')]),
('zip-results',['C27'],[(F,'''        for file in files:
            display = f"[bold green]Working on {file}..."
            if terminal:
                with console.status(display) as status:
                    routine(file, backend, suffix, verbose)
            else:
                console.print(display)
                routine(file, backend, suffix, verbose)
''','''        rs = []
        for file in files:
            try:
                rs.append(parse_qasm(file, backend=backend).run())
            except Exception as e:
                warnings.warn(f"{file}: {e}")
        for file, r in zip(files, rs):
            with open(file + ".pkl", "wb") as out:
                pickle.dump({"value": r}, out)
''')]),
('R-zip-results',['C27'],[(F,'''        for file in files:
            display = f"[bold green]Working on {file}..."
            if terminal:
                with console.status(display) as status:
                    routine(file, backend, suffix, verbose)
            else:
                console.print(display)
                routine(file, backend, suffix, verbose)
''','''        rs = {}
        for file in files:
            try:
                rs[file] = parse_qasm(file, backend=backend).run()
            except Exception as e:
                warnings.warn(f"{file}: {e}")
        for file, r in rs.items():
            with open(file + ".pkl", "wb") as out:
                pickle.dump({"value": r}, out)
''')]),
('R-output',['C27'],[(F,'output = ".".join(file.split(".")[:-1])+"-"+suffix+\'.pkl\'','import os\n        output = f"{os.path.splitext(file)[0]}-{suffix}.pkl"')]),
('R-else',['C27'],[(F,'''    try:
        start = time.time()
        qc = parse_qasm(file, backend=backend)
''','''    try:
        start = time.perf_counter()
        qc = parse_qasm(filename=file, backend=backend)
''')]),
('R-save',['C27'],[(F,'''        with open(output, "wb") as out_file:
            pickle.dump(result, out_file)

        console''','''        save(result, output)
        console'''),(F,'def routine(','def save(result, output):\n    out_file = open(output, "wb")\n    pickle.dump(result, out_file)\n    out_file.close()\n\n\ndef routine(')]),
('R-rename',['C27'],[(F,'def routine(file, backend, suffix, verbose):\n    try:','def routine(file, backend, suffix, verbose):\n    failed = False\n    try:'),(F,"got exception '{e}'...\\n[x]\")","got exception '{e}'...\\n[x]\")\n        failed = True\n    return not failed")]),
('R-enumerate',['C27'],[(F,'        for file in files:\n            display = f"[bold green]Working on {file}..."','        for number, file in enumerate(sorted(files), 1):\n            display = f"[bold green]Working on {file} ({number}/{len(files)})..."')]),
('R-run-helper',['C27'],[(F,'            if terminal:\n                with console.status(display) as status:\n                    routine(file, backend, suffix, verbose)\n            else:\n                console.print(display)\n                routine(file, backend, suffix, verbose)\n','            work = lambda: routine(file, backend, suffix, verbose)\n            if not terminal:\n                console.print(display)\n                work()\n                continue\n            with console.status(display):\n                work()\n')]),
]
M.append(('skip-done',['C27'],[(F,'    try:\n        start = time.time()\n','    try:\n        import os\n        if os.path.exists(".".join(file.split(".")[:-1])+"-"+suffix+".pkl"):\n            return\n        start = time.time()\n')]))
M.append(('R-exist-msg',['C27'],[(F,'        with open(output, "wb")','        import os\n        if os.path.exists(output):\n            console.print(f"overwriting {output}")\n        with open(output, "wb")')]))
