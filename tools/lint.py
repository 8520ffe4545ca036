"""Names used but defined nowhere in the checker."""
import builtins, glob, os, symtable
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in glob.glob(ROOT + '/pyvg/*.py')+glob.glob(ROOT + '/checks/*.py'):
    s=open(p).read(); top=symtable.symtable(s,p,'exec')
    defs={x.get_name() for x in top.get_symbols() if x.is_assigned() or x.is_imported() or x.is_namespace()}
    def walk(tb):
        for x in tb.get_symbols():
            if x.is_global() and x.is_referenced() and x.get_name() not in defs and not hasattr(builtins,x.get_name()):
                print(p,tb.get_name(),x.get_name())
        for c in tb.get_children(): walk(c)
    walk(top)
