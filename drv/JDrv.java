import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Executes a script of the C driver's language through the Java classes, one event line per command. */
public class JDrv {
	static BufferedWriter ev;

	static void num(double v) throws IOException {
		ev.write('\t');
		ev.write(Double.isNaN(v) ? "nan" : Double.isInfinite(v) ? (v > 0 ? "inf" : "-inf") : Double.toHexString(v));
	}

	static void nums(double[] a) throws IOException {
		if (a != null)
			for (double v : a)
				num(v);
	}

	static void str(String s) throws IOException {
		ev.write('\t');
		ev.write(s);
	}

	static double[] point(String[] f, int from) {
		double[] x = new double[f.length - from];
		for (int i = from; i < f.length; i++)
			x[i - from] = f[i].equals("nan") ? Double.NaN : f[i].equals("inf") ? Double.POSITIVE_INFINITY
					: f[i].equals("-inf") ? Double.NEGATIVE_INFINITY : Double.parseDouble(f[i]);
		return x;
	}

	static String opt(String s) {
		return s.equals("NULL") ? "" : s;
	}

	public static void main(String[] args) throws Exception {
		List<String> lines = Files.readAllLines(Paths.get(args[0]), StandardCharsets.UTF_8);
		ev = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(args[1]), StandardCharsets.UTF_8));
		CocoJNI.cocoSetLogLevel(args[2]);
		Map<Integer, Suite> suites = new HashMap<>();
		Map<Integer, Observer> observers = new HashMap<>();
		Map<Integer, Problem> problems = new HashMap<>();
		Map<String, Benchmark> benchmarks = new HashMap<>();
		int n = 0;
		for (String line : lines) {
			String[] f = line.split("\t", -1);
			if (f[0].isEmpty())
				continue;
			ev.write(++n + "\t" + f[0]);
			ev.flush();
			int a = f.length > 1 && f[1].matches("\\d+") ? Integer.parseInt(f[1]) : -1;
			switch (f[0]) {
			case "suite":
				suites.put(a, new Suite(f[2], opt(f[3]), opt(f[4])));
				str("ok");
				str("" + suites.get(a).getNumberOfProblems());
				break;
			case "observer":
				observers.put(a, new Observer(f[2], opt(f[3])));
				str("ok");
				break;
			case "next": {
				int s = Integer.parseInt(f[2]), o = Integer.parseInt(f[3]);
				Benchmark b = benchmarks.computeIfAbsent(s + "/" + o, k -> new Benchmark(suites.get(s), observers.get(o)));
				Problem p = b.getNextProblem();
				problems.put(a, p);
				if (p == null)
					str("NULL");
				else {
					str("ok");
					str(p.getId());
					str("" + p.getIndex());
					str("" + p.getDimension());
				}
				break;
			}
			case "getfdi": {
				Problem p = suites.get(Integer.parseInt(f[2])).getProblemByFuncDimInst(Long.parseLong(f[3]), Long.parseLong(f[4]), Long.parseLong(f[5]));
				problems.put(a, p);
				str(p == null ? "NULL" : "ok");
				break;
			}
			case "getp": {
				long q = CocoJNI.cocoSuiteGetProblem(suites.get(Integer.parseInt(f[2])).getPointer(), Long.parseLong(f[3]));
				problems.put(a, q == 0 ? null : new Problem(q));
				str(q == 0 ? "NULL" : "ok");
				break;
			}
			case "addobs":
			case "rmobs": {
				long p = problems.get(a).getPointer(), o = observers.get(Integer.parseInt(f[2])).getPointer();
				long q = f[0].equals("addobs") ? CocoJNI.cocoProblemAddObserver(p, o) : CocoJNI.cocoProblemRemoveObserver(p, o);
				problems.put(a, new Problem(q));
				str(q == p ? "same" : f[0].equals("addobs") ? "wrapped" : "unwrapped");
				break;
			}
			case "restart":
				observers.get(a).signalRestart(problems.get(Integer.parseInt(f[2])));
				break;
			case "info": {
				Problem p = problems.get(a);
				str(p.getId());
				str(p.getName());
				str("-");
				str("" + p.getDimension());
				str("" + p.getNumberOfObjectives());
				str("" + p.getNumberOfConstraints());
				str("" + p.getNumberOfIntegerVariables());
				str("" + p.getIndex());
				nums(p.getSmallestValuesOfInterest());
				nums(p.getLargestValuesOfInterest());
				str("|");
				nums(p.getLargestFValuesOfInterest());
				str("|");
				str(p.toString());
				num(p.getSmallestValueOfInterest(p.getDimension() - 1));
				num(p.getLargestValueOfInterest(0));
				break;
			}
			case "state": {
				Problem p = problems.get(a);
				str("" + p.getEvaluations());
				str("" + p.getEvaluationsConstraints());
				str(p.isFinalTargetHit() ? "1" : "0");
				break;
			}
			case "eval":
			case "cons": {
				double[] x = point(f, 2), y = x.clone();
				Problem p = problems.get(a);
				nums(f[0].equals("eval") ? p.evaluateFunction(x) : p.evaluateConstraint(x));
				for (int i = 0; i < x.length; i++)
					if (Double.doubleToRawLongBits(x[i]) != Double.doubleToRawLongBits(y[i]))
						str("X-MODIFIED");
				break;
			}
			case "rec":
				problems.get(a).recommendSolution(point(f, 2));
				break;
			case "suitefree":
				suites.get(a).finalizeSuite();
				break;
			case "obsfree":
				observers.get(a).finalizeObserver();
				break;
			case "finish": { /* finish S O */
				int o = Integer.parseInt(f[2]);
				new Benchmark(suites.get(a), observers.get(o)).finalizeBenchmark();
				break;
			}
			case "gc":
				System.gc();
				break;
			default:
				str("UNKNOWN-COMMAND");
			}
			ev.write("\n");
		}
		ev.write("END\nCLEAN\n");
		ev.close();
	}
}
