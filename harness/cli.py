"""Run the command line tools of /repo inside this process, on scratch files."""
import contextlib
import csv
import io
import os
import runpy
import shutil
import sys
import tempfile
import lib


def run(tool, args, files, out):
    """args: words; those of the form @name are replaced with scratch files (content from files[name]; @out is the output). The text written."""
    d = tempfile.mkdtemp(prefix='cli_')
    try:
        for k, v in files.items():
            with open(os.path.join(d, k), 'wb') as f:
                f.write(v)
        argv = [tool] + [os.path.join(d, a[1:]) if a.startswith('@') else a for a in args]
        old, here = sys.argv, os.getcwd()
        sys.argv = argv
        os.chdir(d)
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text):
                g = runpy.run_path(os.path.join(lib.REPO, tool), run_name='__main__')
        finally:
            sys.argv = old
            os.chdir(here)
        for v in g.values():
            if isinstance(v, io.IOBase) and not v.closed and getattr(v, 'name', '').startswith(d):
                v.close()
        for k, v in files.items():
            with open(os.path.join(d, k), 'rb') as f:
                if f.read() != v:
                    return 'the input was changed'
        with open(os.path.join(d, out), 'r', newline='', encoding='utf-8', errors='surrogatepass') as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table(text):
    return list(csv.reader(io.StringIO(text, newline='')))
