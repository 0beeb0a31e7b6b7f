from mkseed import *
I = 'emlearn/arduino/install.py'
PRE = '''
import os, sys, glob, tempfile
from emlearn.arduino import install
from emlearn.common import get_include_dir
inc = get_include_dir()
'''
seed('i01-update-newer', 'I01', [(I, "            shutil.copy(f, library_dir+'/')", """            target = os.path.join(library_dir, os.path.basename(f))
            if os.path.exists(target) and os.path.getmtime(target) >= os.path.getmtime(f):
                continue # already up to date
            shutil.copy(f, target)""")],
     py_demo(PRE + '''
with tempfile.TemporaryDirectory() as d:
    lib = install.install_arduino_library(inc, d)
    h = os.path.join(lib, 'eml_trees.h')
    open(h, 'w').write('damaged')
    install.install_arduino_library(inc, d, update=True)
    assert open(h).read() == open(os.path.join(inc, 'eml_trees.h')).read(), 'an update leaves a file as it was'
'''), 'An update over an installed file that is newer than the file of the package', 'Update keeps files that are newer than those of the package, so another version or an edited header survives')
seed('i01-pattern', 'I01', [(I, "in_library('eml_*.h')", "in_library('eml_[a-p,s-z]*.h')")],
     py_demo(PRE + '''
with tempfile.TemporaryDirectory() as d:
    lib = install.install_arduino_library(inc, d)
    want = {os.path.basename(f) for f in glob.glob(os.path.join(inc, 'eml_*.h'))}
    assert want <= set(os.listdir(lib)), want - set(os.listdir(lib))
'''), 'A sketch that uses the header left out', 'eml_quantizer.h is not installed, which generated code includes')
seed('i01-guard-header', 'I01', [(I, "    if os.path.exists(library_dir) and not update:", "    if os.path.isfile(library_dir) and not update:")],
     py_demo(PRE + '''
with tempfile.TemporaryDirectory() as d:
    install.install_arduino_library(inc, d)
    try:
        install.install_arduino_library(inc, d)
    except ValueError:
        sys.exit(0)
    sys.exit('an existing installation is overwritten')
'''), 'Installing twice without update', 'An existing installation is overwritten without --update')
seed('i01-include-dir', 'I01', [(I, "    emlearn_include_dir = args.emlearn_include_dir\n", "    emlearn_include_dir = get_include_dir()\n")],
     py_demo(PRE + '''
with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as src:
    open(os.path.join(src, 'eml_special.h'), 'w').write('// special')
    sys.argv = ['install', '--arduino-library-dir', d, '--emlearn-include-dir', src]
    install.main()
    assert os.listdir(os.path.join(d, 'emlearn')) == ['eml_special.h'], os.listdir(os.path.join(d, 'emlearn'))
'''), 'Installing with --emlearn-include-dir', 'The option is accepted and ignored')
