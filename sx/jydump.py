# Runs under Jython: parses Python 2 sources with the interpreter's own parser
# and dumps the syntax trees as JSON.  argv: OUT.json then pairs NAME=PATH.
# PATH may be "jar:Lib/x.py" (Jython's standard library inside jython.jar).
import ast, sys, json, os

def read(path):
    if path.startswith('jar:'):
        from java.util.zip import ZipFile
        from java.lang import System
        jar = os.environ['SX_JYTHON_JAR']
        z = ZipFile(jar)
        e = z.getEntry(path[4:])
        if e is None:
            raise IOError('no %s in %s' % (path, jar))
        st = z.getInputStream(e)
        out = []
        from jarray import zeros
        buf = zeros(65536, 'b')
        while True:
            n = st.read(buf)
            if n < 0:
                break
            out.append(buf[:n].tostring())
        z.close()
        return ''.join(out)
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()

def conv(n):
    if isinstance(n, ast.AST):
        d = {'t': n.__class__.__name__}
        if isinstance(n, (ast.stmt, ast.expr, ast.excepthandler)):
            d['l'] = n.lineno
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, unicode):
        return {'t': '$u', 'v': n}
    if isinstance(n, str):
        return n.decode('latin-1')
    if isinstance(n, (int, long)):
        return {'t': '$i', 'v': str(n)}
    if isinstance(n, float):
        return {'t': '$f', 'v': repr(n)}
    if isinstance(n, complex):
        return {'t': '$f', 'v': '0.0'}
    try:
        return [conv(x) for x in n]      # Jython's AstList
    except TypeError:
        return dictcomp(n)

def dictcomp(n):
    """Jython forgot to make DictComp nodes readable from Python."""
    from java.lang import Class
    from java.lang.reflect import Method
    c = Class.forName('org.python.antlr.ast.DictComp')
    d = {'t': 'DictComp'}
    for f in ('key', 'value', 'generators'):
        m = Class.getMethod(c, 'getInternal' + f.capitalize(), [])
        d[f] = conv(Method.invoke(m, n, []))
    d['l'] = d['key'].get('l', 1)
    return d

def main():
    out = {}
    for a in sys.argv[2:]:
        name, path = a.split('=', 1)
        src = read(path)
        try:
            out[name] = {'path': path, 'ast': conv(ast.parse(src, path))}
        except SyntaxError, e:
            out[name] = {'path': path, 'error': str(e)}
    f = open(sys.argv[1], 'w')
    json.dump(out, f)
    f.close()

main()
