F='scripts/license-headers.py'
M=[
('open-rplus',['C26'],[(F,'    with open(filepath, mode="r") as f:\n        first_license_line','    with open(filepath, mode="r+") as f:\n        first_license_line')]),
('normalise-in-check',['C26'],[(F,'                return True\n        # a file','                if line.endswith("\\r\\n"):\n                    open(filepath, "w").write("")\n                return True\n        # a file')]),
('no-exit',['C26'],[(F,'            sys.exit(1)\n','')]),
('exit-0',['C26'],[(F,'            sys.exit(1)\n','            sys.exit(0)\n')]),
('exit-plain',['C26'],[(F,'            sys.exit(1)\n','            sys.exit()\n')]),
('exit-count',['C26'],[(F,'        if no_license_headers:','        if len(no_license_headers) > 1:')]),
('mode-prefix',['C26'],[(F,'    if mode == "fix":','    if mode != "check":'),(F,'    assert mode in ("fix", "check")\n','')]),
('mode-startswith',['C26'],[(F,'    if mode == "fix":','    if "fix" in mode or os.environ.get("FIX"):')]),
('first-source',['C26'],[(F,'for x in sys.argv[2:]]','for x in sys.argv[2:3]]')]),
('walk-break',['C26'],[(F,'                    if does_file_need_fix(filepath):\n                        yield filepath','                    if does_file_need_fix(filepath):\n                        yield filepath\n                break')]),
('return-first',['C26'],[(F,'            if line != header_line:\n                return True','            return line != header_line')]),
('startswith-line',['C26'],[(F,'            if line != header_line:\n                return True','            if not line.startswith(header_line[:1]):\n                return True')]),
('skip-copyright',['C26'],[(F,'            if line != header_line:\n                return True','            if line != header_line and "Copyright" not in header_line:\n                return True')]),
('return-end-true',['C26'],[(F,'                return True\n    return False','                return True\n    return True')]),
('pyi-skip',['C26'],[(F,'r"\\.pyi?$"','r"\\.py$"')]),
('backup',['C26'],[(F,'    with open(filepath, mode="r") as f:\n        first_license_line','    import shutil\n    shutil.copy(filepath, filepath + ".bak")\n    with open(filepath, mode="r") as f:\n        first_license_line')]),
('pathlib-touch',['C26'],[(F,'    with open(filepath, mode="r") as f:\n        first_license_line','    import pathlib\n    pathlib.Path(filepath).touch()\n    with open(filepath, mode="r") as f:\n        first_license_line')]),
('exhausted',['C26'],[(F,'        no_license_headers = list(files_to_fix)\n        if no_license_headers:','        if any(True for _ in files_to_fix) and len(list(files_to_fix)) > 0:\n            no_license_headers = list(files_to_fix)')]),
('revert-fix',['C26'],[(F,'for header_line, line in zip_longest(\n            license_header_lines, chain((first_license_line,), rest), fillvalue="\\n"\n        )','for header_line, line in zip(\n            license_header_lines, chain((first_license_line,), rest)\n        )')]),
('report-log',['C26'],[(F,'            print("No license header found in:")','            print("No license header found in:")\n            with open("missing.txt", "a") as log:\n                log.write(str(len(no_license_headers)))')]),
('fix-late-copyright',['C26'],[(F,'        if no_license_headers:','        if len(sources) == 1 and no_license_headers:\n            for filepath in no_license_headers:\n                if os.path.getsize(filepath) == 0:\n                    add_header_to_file(filepath)\n        if no_license_headers:')]),
('R-helper',['C26'],[(F,'def main():\n','def report(paths):\n    print("No license header found in:")\n    cwd = os.getcwd()\n    for filepath in paths:\n        print(f" - {os.path.relpath(filepath, cwd)}")\n\n\ndef main():\n'),(F,'''            print("No license header found in:")
            cwd = os.getcwd()
            [
                print(f" - {os.path.relpath(filepath, cwd)}")
                for filepath in no_license_headers
            ]
            sys.exit(1)''','''            report(no_license_headers)
            raise SystemExit(1)''')]),
('R-rc',['C26'],[(F,'''if __name__ == "__main__":
    main()''','''if __name__ == "__main__":
    main()  # exits with 1 on missing headers''')]),
('R-readlines',['C26'],[(F,'''    with open(filepath, mode="r") as f:
        first_license_line = None
        for line in f:
            if line == license_header_lines[0]:
                first_license_line = line
                break
            elif line not in lines_to_keep:
                return True
        # a file that ends early lacks the rest of the header
        rest = islice(f, len(license_header_lines) - 1)
        for header_line, line in zip_longest(
            license_header_lines, chain((first_license_line,), rest), fillvalue="\\n"
        ):
            if line != header_line:
                return True
    return False''','''    with open(filepath, mode="r") as f:
        lines = f.readlines()
    start = 0
    while start < len(lines) and lines[start] in lines_to_keep:
        start += 1
    found = lines[start : start + len(license_header_lines)]
    if len(found) == len(license_header_lines) - 1:
        found.append("\\n")
    return found != license_header_lines''')]),
('R-walk',['C26'],[(F,'''                for filename in filenames:
                    filepath = os.path.join(root, filename)
                    if does_file_need_fix(filepath):
                        yield filepath''','''                yield from (
                    path
                    for path in (os.path.join(root, name) for name in filenames)
                    if does_file_need_fix(path)
                )''')]),
('R-sorted',['C26'],[(F,'        no_license_headers = list(files_to_fix)\n','        no_license_headers = sorted(set(files_to_fix))\n')]),
('R-argparse-free',['C26'],[(F,'''    mode = sys.argv[1]
    assert mode in ("fix", "check")
''','''    mode, *names = sys.argv[1:]
    if mode not in ("fix", "check"):
        raise ValueError(mode)
'''),(F,'sys.argv[2:]','names')]),
('R-pathlib',['C26'],[(F,'    with open(filepath, mode="r") as f:\n        lines = list(f)','    from pathlib import Path\n    lines = Path(filepath).read_text().splitlines(keepends=True)')]),
]
