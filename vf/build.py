"""Building the code under test: the extension is compiled from /repo's working tree into a scratch
directory, the Python modules are imported from /repo itself."""
import glob, os, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def clean_env(scratch):
    e = dict(os.environ)
    for k in ('PYRSISTENT_SKIP_EXTENSION', 'PYRSISTENT_NO_C_EXTENSION', 'PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHASHSEED',
              'PYTHONMALLOC', 'JAVA_TOOL_OPTIONS'):
        e.pop(k, None)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONNOUSERSITE'] = '1'
    e['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    return e


def build(scratch):
    """Returns the directory holding the freshly built extension."""
    lib = os.path.join(scratch, 'lib')
    os.makedirs(lib)
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--force', '--build-lib', lib,
                        '--build-temp', os.path.join(scratch, 'bt')],
                       cwd=REPO, env=clean_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not glob.glob(os.path.join(lib, 'pvectorc*.so')):
        sys.stderr.write(r.stdout)
        raise RuntimeError('the C extension does not build')
    return lib
