// C19: the command line

package cli

func ParseFileArgument(args, maxArgs) (result, err)
  props C19
  requires 1 <= maxArgs
  ensures last argument: len(args) == maxArgs ==> err == nil && result == args[maxArgs - 1]
  ensures standard input if missing: len(args) == maxArgs - 1 ==> err == nil && result == "-"
  ensures any other number is an argument error: len(args) != maxArgs && len(args) != maxArgs - 1 ==> errIs(err, ErrBadArgs)

func OpenFileOrStdin(path) (result, err)
  props C19
  at os.Open(p) that file: p == path && path != "-"
  ensures standard input: path == "-" ==> err == nil && dyn(result, *os.File) && as(result, *os.File) == os.Stdin && !called(os.Open)
  ensures otherwise the file: path != "-" ==> called(os.Open)

func HandleError(err, usage)
  props C19
  at fmt.Fprintln(w, what) to standard error: dyn(w, *os.File) && as(w, *os.File) == os.Stderr
  at fmt.Fprintf(w, _, _) to standard error: dyn(w, *os.File) && as(w, *os.File) == os.Stderr
  at fmt.Fprint(w, _) to standard error: dyn(w, *os.File) && as(w, *os.File) == os.Stderr
  at usage() only for argument errors: errIs(err, ErrBadArgs)
  at os.Exit(code) status 1: code == 1
  at os.Exit(code) only on errors: err != nil
  at os.Exit(code) after a message: called(fmt.Fprintln) || called(fmt.Fprintf) || called(fmt.Fprint)
  at os.Exit(code) after usage for argument errors: errIs(err, ErrBadArgs) ==> called(usage)
  ensures returns only without error: err == nil
  ensures silently: !called(fmt.Fprintln) && !called(fmt.Fprintf) && !called(fmt.Fprint) && !called(usage)

package rtcg-gen

// The directory n levels above d.
rec above(d string, n int) string = ite(n <= 0, d, filepath.Dir(above(d, n - 1)))
spec workDir() string = nth(filepath.EvalSymlinks(nth(os.Getwd(), 0)), 0)
spec sameDir(a string, b string) bool = os.SameFile(nth(os.Stat(a), 0), nth(os.Stat(b), 0))
// No directory from the working directory up to the root is the given one.
spec outsideWorkDir(d string) bool = some(k, int, 0 <= k && above(workDir(), k) == filepath.Dir(above(workDir(), k)) && forall(i, 0, k + 1, !sameDir(above(workDir(), i), d)))
spec mayClean(d string) bool = errIs(nth(os.Stat(d), 1), os.ErrNotExist) || outsideWorkDir(d)

func genAction.checkClean(a) err
  props C19
  requires a != nil
  inv{dir:string} directory: dir == above(workDir(), ITER)
  inv{dir:string} not so far: forall(i, 0, ITER, !sameDir(above(workDir(), i), a.outputDir))
  ensures only outside the working directory: err == nil ==> mayClean(a.outputDir)

func genAction.maybeClean(a) err
  props C19
  requires a != nil
  at os.RemoveAll(p) asked for: a.clean && p == a.outputDir
  at os.RemoveAll(p) only outside the working directory: mayClean(p)
  ensures cleaned when asked: err == nil && a.clean ==> called(os.RemoveAll)

package rtcg-read-traces

func parseArgs(args) (path, err)
  props C19
  ensures file: len(args) == 2 ==> err == nil && path == args[1]
  ensures standard input: len(args) == 1 ==> err == nil && path == "-"
  ensures argument error: len(args) != 1 && len(args) != 2 ==> errIs(err, cli.ErrBadArgs)

package rtcg-make-stms

func parseArgs(argv) (action, err)
  props C19
  ensures file: len(argv) == 2 ==> err == nil && action != nil && action.inputFile == argv[1]
  ensures standard input: len(argv) == 1 ==> err == nil && action != nil && action.inputFile == "-"
  ensures argument error: len(argv) != 1 && len(argv) != 2 ==> errIs(err, cli.ErrBadArgs)
