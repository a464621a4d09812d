"""Native replays: builds /repo's current source with the harness overlaid and runs it."""
import resource
import json, os, re, subprocess, glob, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="0")


def env():
    e = dict(os.environ)
    e.update(ENV)
    e.setdefault("HOME", "/root")
    return e


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Native:
    """One test binary per build tag, built on demand."""

    def __init__(self, repo, work):
        self.repo, self.work, self.bins = repo, work, {}

    def overlay(self, d, accel, harness):
        rep = {}
        for f in sorted(glob.glob(self.repo + "/*.go")):
            if f.endswith("_test.go"):
                rep[f] = ""  # the repository's own tests are not needed
                continue
            s = open(f).read()
            if "runtime.SetFinalizer(" in s:
                s = s.replace("runtime.SetFinalizer(", "vSetFinalizer(")
                s += "\nvar _ = runtime.GC\n"
                t = os.path.join(d, "ov_" + os.path.basename(f))
                open(t, "w").write(s)
                rep[f] = t
        for f in sorted(glob.glob(HERE + "/harness/zz_verif_*.go")):
            if harness or f.endswith("_rt.go"):
                rep[os.path.join(self.repo, os.path.basename(f))] = f
        rep[self.repo + "/zz_verif_driver_test.go"] = HERE + "/native/zz_verif_driver_test.go"
        a = "accel" if accel else "noaccel"
        rep[self.repo + "/zz_verif_%s_test.go" % a] = HERE + "/native/zz_verif_%s_test.go" % a
        if harness:
            names = set()
            for f in glob.glob(HERE + "/harness/zz_verif_*.go"):
                if f.endswith("_hudd.go") or f.endswith("_buddy.go"):
                    continue
                names |= set(re.findall(r"^func (V_\w+)\(\)", open(f).read(), re.M))
            t = os.path.join(d, "run_test.go")
            with open(t, "w") as o:
                o.write(RUNNER % "".join('\t"%s": %s,\n' % (n, n) for n in sorted(names)))
            rep[self.repo + "/zz_verif_run_test.go"] = t
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        return ov

    def build(self, tag, harness=True, race=False):
        key = (tag, harness, race)
        if key in self.bins:
            return self.bins[key]
        res = None
        msg = ""
        for accel in (True, False):
            d = tempfile.mkdtemp(prefix="rp", dir=self.work)
            ov = self.overlay(d, accel, harness)
            b = os.path.join(d, "t.test")
            p = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-tags", "" if tag == "hudd" else tag, "-o", b, "."],
                               cwd=self.repo, env=env(), capture_output=True, text=True)
            if p.returncode == 0 and os.path.exists(b):
                res = b
                break
            msg = (p.stdout + p.stderr)[:2000]
        self.bins[key] = (res, msg)
        return self.bins[key]

    def driver(self, tag, job, timeout):
        b, msg = self.build(tag, harness=False)
        if not b:
            return None, "the native driver does not build: " + msg
        jf = os.path.join(self.work, "driver_%s.json" % tag)
        json.dump(job, open(jf, "w"))
        e = env()
        e["VERIF_DRIVER"] = jf
        try:
            p = subprocess.run([b, "-test.run", "^TestVerifDriver$", "-test.timeout", "%ds" % timeout], cwd=self.work, env=e,
                               capture_output=True, text=True, timeout=timeout + 20)
        except subprocess.TimeoutExpired:
            return {"kind": "hang", "what": "a history of public calls does not end"}, ""
        out = p.stdout + p.stderr
        m = re.search(r"VERIF-RESULT (.*)", p.stdout)
        if m:
            r = json.loads(m.group(1))
            return r.get("fail"), "%d histories" % r.get("runs", 0)
        if "stack overflow" in out or "fatal error" in out or "panic:" in out:
            if "test timed out" in out:
                return {"kind": "hang", "what": "a history of public calls does not end", "output": out[:1500]}, ""
            return {"kind": "crash", "what": out[:300], "output": out[:3000]}, ""
        return None, "no result: " + out[-500:]

    def harness(self, tag, fn, model, params, timeout=60):
        b, msg = self.build(tag, harness=True)
        if not b:
            return None, "the replay does not build: " + msg
        mf = tempfile.mktemp(prefix="model", suffix=".json", dir=self.work)
        json.dump({"model": model, "params": params}, open(mf, "w"))
        e = env()
        e["VERIF_MODEL"], e["VERIF_FN"] = mf, fn
        try:
            p = subprocess.run([b, "-test.run", "^TestVerifRun$", "-test.timeout", "%ds" % timeout], cwd=self.work, env=e, preexec_fn=limit,
                               capture_output=True, text=True, timeout=timeout + 20)
        except subprocess.TimeoutExpired:
            return {"fails": ["the call does not end"], "trace": {}}, ""
        out = p.stdout + p.stderr
        m = re.search(r"VERIF-RESULT (.*)", p.stdout)
        if m:
            return json.loads(m.group(1)), ""
        if "stack overflow" in out:
            return {"fails": ["stack overflow"], "trace": {}}, ""
        if "test timed out" in out:
            return {"fails": ["the call does not end"], "trace": {}}, ""
        if "fatal error" in out or "panic:" in out:
            return {"fails": ["crash: " + out[:300]], "trace": {}}, ""
        return None, "no result: " + out[-500:]

    def stress(self, tag, secs):
        b, msg = self.build(tag, harness=True)
        if not b:
            return None, "the replay does not build: " + msg
        e = env()
        e["VERIF_STRESS"] = str(secs)
        try:
            p = subprocess.run([b, "-test.run", "^TestVerifStress$", "-test.timeout", "%ds" % (secs + 60)], cwd=self.work, env=e, preexec_fn=limit,
                               capture_output=True, text=True, timeout=secs + 90)
        except subprocess.TimeoutExpired:
            return "releases during operations: a call does not end", ""
        out = p.stdout + p.stderr
        m = re.search(r"VERIF-RESULT (.*)", p.stdout)
        if m:
            return json.loads(m.group(1))["fail"] or None, "%d s of releases during operations" % secs
        if "test timed out" in out or "deadlock" in out:
            return "releases during operations: a call does not end", ""
        if "fatal error" in out or "panic:" in out:
            return "crash: " + out[:300], ""
        return None, "no result: " + out[-500:]


RUNNER = r'''package rudd

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
)

var vHarnesses = map[string]func(){
%s}

func TestVerifStress(t *testing.T) {
	secs := 0
	fmt.Sscan(os.Getenv("VERIF_STRESS"), &secs)
	if secs == 0 {
		t.Skip()
	}
	b, _ := json.Marshal(map[string]interface{}{"fail": vStress(secs)})
	fmt.Printf("\nVERIF-RESULT %%s\n", b)
}

func TestVerifRun(t *testing.T) {
	fn := os.Getenv("VERIF_FN")
	if fn == "" {
		t.Skip()
	}
	panicked := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vAssumeFailed); ok {
					panicked = "assume"
					return
				}
				panicked = fmt.Sprint("panic: ", e)
			}
		}()
		vHarnesses[fn]()
	}()
	fails := append([]string{}, vS.fails...)
	if panicked != "" && panicked != "assume" {
		fails = append(fails, panicked)
	}
	reach := []string{}
	for r := range vS.reach {
		reach = append(reach, r)
	}
	b, _ := json.Marshal(map[string]interface{}{"fails": fails, "trace": vS.trace, "reach": reach, "assume": panicked == "assume"})
	fmt.Printf("\nVERIF-RESULT %%s\n", b)
}
'''
