// C23: log messages reach the logger exactly up to the configured level.

// What the logger was called with.
ghost g_log int     // calls of Log
ghost g_logf int    // calls of Logf
ghost g_who int     // the logger called
ghost g_n int       // number of arguments
ghost g_tags iseq   // their dynamic types
ghost g_vals iseq   // and values
ghost g_fmt seq     // the format of Logf
ghost g_want int    // the calls of Log expected when the process exits
ghost g_wantf int   // and of Logf

model log.Logger.Log(l, v) {
  g_log = g_log + 1
  g_who = ref(l)
  g_n = len(v)
  g_tags = seqfn(len(v), i, tag(v[i]))
  g_vals = seqfn(len(v), i, ref(v[i]))
}
model log.Logger.Logf(l, format, v) {
  g_logf = g_logf + 1
  g_who = ref(l)
  g_n = len(v)
  g_tags = seqfn(len(v), i, tag(v[i]))
  g_vals = seqfn(len(v), i, ref(v[i]))
  g_fmt = str(format)
}
// os.Exit does not return: what the logger has to have seen by then is checked here.
model os.Exit(code) {
  assert "a fatal message is passed on before the process exits": g_log == g_want && g_logf == g_wantf
  assert "fatal exits with status 1": code == 1
  stop
}

spec pre(p) = len(p) > 0 ? 2 : 0
// the arguments, in order, after the prefix and a blank when there is a prefix
spec args_ok(v, p, tags0, vals0) = g_n == len(v) + pre(p) && (forall i in 0..len(v) : g_tags[pre(p) + i] == tags0[i] && g_vals[pre(p) + i] == vals0[i]) && (len(p) > 0 ==> g_tags[0] == typeid(string) && g_tags[1] == typeid(string) && str(unboxref(string, g_vals[0])) == str(p) && str(unboxref(string, g_vals[1])) == str(" "))
spec argsf_ok(v, f, p, tags0, vals0) = g_n == len(v) && (forall i in 0..len(v) : g_tags[i] == tags0[i] && g_vals[i] == vals0[i]) && str(g_fmt) == (len(p) > 0 ? cat(str(p), cat(str(" "), str(f))) : str(f))


proof C23_Debug {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Debug(v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_log == (lv >= log.LevelDebug ? 1 : 0) && g_logf == 0
  assert "to the configured logger": g_log == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_log == 1 ==> args_ok(v, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Debugf {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Debugf(format, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_logf == (lv >= log.LevelDebug ? 1 : 0) && g_log == 0
  assert "to the configured logger": g_logf == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_logf == 1 ==> argsf_ok(v, format, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Info {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Info(v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_log == (lv >= log.LevelInfo ? 1 : 0) && g_logf == 0
  assert "to the configured logger": g_log == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_log == 1 ==> args_ok(v, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Infof {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Infof(format, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_logf == (lv >= log.LevelInfo ? 1 : 0) && g_log == 0
  assert "to the configured logger": g_logf == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_logf == 1 ==> argsf_ok(v, format, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Error {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Error(v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_log == (lv >= log.LevelError ? 1 : 0) && g_logf == 0
  assert "to the configured logger": g_log == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_log == 1 ==> args_ok(v, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Errorf {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Errorf(format, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_logf == (lv >= log.LevelError ? 1 : 0) && g_log == 0
  assert "to the configured logger": g_logf == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_logf == 1 ==> argsf_ok(v, format, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Fatal {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  g_want = lv >= log.LevelFatal ? 1 : 0
  g_wantf = 0
  run log.Fatal(v)
  fail "fatal returns"
}

proof C23_Fatalf {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  g_wantf = lv >= log.LevelFatal ? 1 : 0
  g_want = 0
  run log.Fatalf(format, v)
  fail "fatal returns"
}

proof C23_WithLevel {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym l : log.Level
  run log.WithLevel(l, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_log == (l <= lv ? 1 : 0) && g_logf == 0
  assert "to the configured logger": g_log == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_log == 1 ==> args_ok(v, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Log {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Log(v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_log == (true ? 1 : 0) && g_logf == 0
  assert "to the configured logger": g_log == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_log == 1 ==> args_ok(v, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_WithLevelf {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym l : log.Level
  run log.WithLevelf(l, format, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_logf == (l <= lv ? 1 : 0) && g_log == 0
  assert "to the configured logger": g_logf == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_logf == 1 ==> argsf_ok(v, format, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_Logf {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  sym format : string
  sym v : []any
  let tags0 = seqfn(len(v), i, tag(v[i]))
  let vals0 = seqfn(len(v), i, ref(v[i]))
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  run log.Logf(format, v)
  assert "passed to the logger exactly once if its level is enabled, otherwise not at all": g_logf == (true ? 1 : 0) && g_log == 0
  assert "to the configured logger": g_logf == 1 ==> g_who == ref(lg)
  assert "with the prefix and all arguments in order": g_logf == 1 ==> argsf_ok(v, format, pf, tags0, vals0)
  assert "the caller's arguments are unchanged": forall i in 0..len(v) : tag(v[i]) == tags0[i] && ref(v[i]) == vals0[i]
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "logging changes no setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "logging changes no setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_SetLevel {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym x : log.Level
  run log.SetLevel(x)
  assert "nothing is logged": g_log == 0 && g_logf == 0
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "SetLevel changes just its own setting": lg2 == lg && lv2 == x
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "SetLevel changes just its own setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, pf, wt, wv)
}

proof C23_SetLogger {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym x : log.Logger
  assume x != nil
  run log.SetLogger(x)
  assert "nothing is logged": g_log == 0 && g_logf == 0
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "SetLogger changes just its own setting": lg2 == x && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "SetLogger changes just its own setting (prefix)": g_log == 1 && g_who == ref(x) && args_ok(w, pf, wt, wv)
}

proof C23_SetPrefix {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym x : string
  run log.SetPrefix(x)
  assert "nothing is logged": g_log == 0 && g_logf == 0
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "SetPrefix changes just its own setting": lg2 == lg && lv2 == lv
  sym w : []any
  let wt = seqfn(len(w), i, tag(w[i]))
  let wv = seqfn(len(w), i, ref(w[i]))
  g_log = 0
  run log.Log(w)
  assert "SetPrefix changes just its own setting (prefix)": g_log == 1 && g_who == ref(lg) && args_ok(w, x, wt, wv)
}

proof C23_Name {
  sym lg : log.Logger
  sym lv : log.Level
  sym pf : string
  assume lg != nil
  run log.SetLogger(lg)
  run log.SetLevel(lv)
  run log.SetPrefix(pf)
  g_log = 0
  g_logf = 0
  sym x : string
  run log.Name(x)
  run lg2 = log.GetLogger()
  run lv2 = log.GetLevel()
  assert "Name changes only the prefix": lg2 == lg && lv2 == lv && g_log == 0 && g_logf == 0
}
