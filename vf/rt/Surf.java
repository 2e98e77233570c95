// Prints the declarations of Java source files: one tab separated line per type and member.
import com.sun.source.tree.*;
import com.sun.source.util.*;
import java.io.*;
import java.nio.file.*;
import java.util.*;
import javax.lang.model.element.Modifier;
import javax.tools.*;

public class Surf {
    static String esc(String s) {
        return s == null ? "-" : "D" + s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r");
    }

    static String access(Set<Modifier> m, boolean iface) {
        return m.contains(Modifier.PUBLIC) || iface ? "public" : m.contains(Modifier.PROTECTED) ? "protected" : m.contains(Modifier.PRIVATE) ? "private" : "package";
    }

    public static void main(String[] a) throws Exception {
        JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        StandardJavaFileManager fm = c.getStandardFileManager(null, null, java.nio.charset.StandardCharsets.UTF_8);
        PrintStream out = new PrintStream(new FileOutputStream(a[0]), false, "UTF-8");
        for (int d = 1; d < a.length; d++) {
            List<File> files = new ArrayList<>();
            try (DirectoryStream<Path> s = Files.newDirectoryStream(Paths.get(a[d]), "*.java")) {
                for (Path p : s)
                    files.add(p.toFile());
            }
            DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
            JavacTask t = (JavacTask) c.getTask(null, fm, diag, Arrays.asList("-proc:none", "-encoding", "UTF-8"), null, fm.getJavaFileObjectsFromFiles(files));
            DocTrees docs = DocTrees.instance(t);
            out.println("DIR\t" + a[d]);
            for (CompilationUnitTree u : t.parse()) {
                String pk = String.valueOf(u.getPackageName());
                new TreePathScanner<Void, String>() {
                    public Void visitClass(ClassTree n, String outer) {
                        boolean iface = n.getKind() == Tree.Kind.INTERFACE;
                        out.println("TYPE\t" + pk + "\t" + n.getKind() + "\t" + n.getSimpleName() + "\t" + access(n.getModifiers().getFlags(), false)
                            + "\t" + esc(docs.getDocComment(getCurrentPath())));
                        for (Tree m : n.getMembers()) {
                            TreePath p = new TreePath(getCurrentPath(), m);
                            if (m instanceof MethodTree) {
                                MethodTree x = (MethodTree) m;
                                StringBuilder b = new StringBuilder();
                                for (VariableTree v : x.getParameters())
                                    b.append(v.getType()).append(' ').append(v.getName()).append(';');
                                Set<Modifier> f = x.getModifiers().getFlags();
                                out.println("METHOD\t" + access(f, iface) + "\t" + (f.contains(Modifier.STATIC) ? "static" : "") + "\t" + x.getName() + "\t"
                                    + x.getReturnType() + "\t" + b + "\t" + x.getThrows() + "\t" + esc(docs.getDocComment(p)));
                            } else if (m instanceof VariableTree) {
                                VariableTree x = (VariableTree) m;
                                out.println("FIELD\t" + access(x.getModifiers().getFlags(), false) + "\t" + x.getName() + "\t" + x.getType() + "\t"
                                    + esc(docs.getDocComment(p)) + "\t" + (x.getType().toString().equals(n.getSimpleName().toString()) ? "item" : ""));
                            }
                        }
                        return null;
                    }
                }.scan(u, "");
            }
            t.analyze();
            for (Diagnostic<?> x : diag.getDiagnostics())
                if (x.getKind() == Diagnostic.Kind.ERROR)
                    out.println("ERROR\t" + esc(x.toString()));
        }
        out.close();
    }
}
