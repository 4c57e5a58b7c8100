"""Generates the workload programs whose shape is parametric."""
import os


def lets(n, body, expr):
    s = "(let "
    for i in range(1, n + 1):
        s += "l%d %s\n      " % (i, expr % i)
    return s + body + ")"


def heap():
    out = []
    w = out.append
    w('(package "work/heap"')
    w('  (export main)')
    w('  (import "work/sim") (import "cora/lib/eval")')
    w('  (import "cora/lib/sys")')
    w('  (defun reg (i) (vector-ref work/heap#regs i))')
    w('  (defun reg! (i v) (vector-set! work/heap#regs i v))')
    w('''  (defun run ()
    (let op (sim-op)
      (if (null? op) 'end
        (let o (car op)
          (if (= o 'exit) 'exit
            (begin (exec o (cdr op)) (run)))))))''')
    w('''  (defun mklist (n base)
    (if (= n 0) ()
      (cons (+ base n) (mklist (- n 1) base))))''')
    w('''  (defun garb (n)
    (if (= n 0) 0
      (begin (cons n (cons n n)) (garb (- n 1)))))''')
    w('''  (defun garbv (n sz)
    (if (= n 0) 0
      (begin (vector sz) (garbv (- n 1) sz))))''')
    w('''  (defun deep (n x)
    (if (= n 0) (run)
      (let y (cons n x)
        (let r (deep (- n 1) y)
          (begin (if (= (car y) n) () (sim-fail y)) r)))))''')
    w('''  (defun enter0 (x)
    (let r (run) (begin (sim-log 'unw x) r)))''')
    for k, n in enumerate((6, 30, 90, 180), 1):
        w("  (defun enter%d (x)\n    " % k + lets(n, "(let r (run) (begin (sim-log 'unw [%s]) r))" %
          " ".join("l%d" % i for i in range(1, n + 1)), "(cons x %d)") + ")")
    # frames about as large as, and larger than, a stack segment
    for k, n in ((5, 250), (6, 600)):
        ps = " ".join("a%d" % i for i in range(1, n + 1))
        w("  (defun big%d (%s)\n    (let r (run) (begin (sim-log 'unw [%s]) r)))" % (k, ps, ps))
    w("  (defun enter5 (x) (let r (big5 %s) r))" % " ".join("(cons x %d)" % i for i in range(1, 251)))
    w("  (defun enter6 (x) (let r (apply big6 (conses x 1 600)) r))")
    w("""  (defun conses (x i n)
    (if (> i n) () (cons (cons x i) (conses x (+ i 1) n))))""")
    for k, n in enumerate((8, 100)):
        w("  (defun enterk%d (x dst)\n    " % k + lets(n, "(let r (run) (begin (reg! dst l%d) r))" % (n - 2), "(cons x %d)") + ")")
    for k, n in enumerate((2, 12, 120)):
        w("  (defun throwk%d (m x)\n    " % k + lets(n, "(let v (throw m) (begin (sim-log 'thr v) (sim-log 'thk [%s])))" %
          " ".join("l%d" % i for i in range(1, n + 1)), "(cons x %d)") + ")")
    w("""  (defun throwk3 (m x)
    (let r [(cons x 1) (cons x 2) (throw m) (cons x 3)]
      (begin (sim-log 'thr (caddr r)) (sim-log 'thk [(car r) (cadr r) (cadddr r)]))))""")
    w("  (defun trybody (x)\n    " + lets(9, "(begin (run) l5)", "(cons x %d)") + ")")
    w('''  (defun hold (v) (let r (run) (begin (sim-log 'held v) r)))''')
    w('''  (defun handle (v k)
    (let mode (car v) r (cadr v) val (caddr v)
      (cond
        ((= mode 0) val)
        ((= mode 1) (k val))
        ((= mode 2) (begin (reg! r k) val))
        (true (begin (run) val)))))''')
    w('''  (defun tc1 (f a) (f a))
  (defun tc2 (f a b) (f a b))
  (defun tc3 (f a b c) (f a b c))
  (defun tc4 (f a b c d) (f a b c d))
  (defun tc5 (f a b c d e) (f a b c d e))
  (defun call-n (f l)
    (let n (length l)
      (cond
        ((= n 1) (f (car l)))
        ((= n 2) (f (car l) (cadr l)))
        ((= n 3) (f (car l) (cadr l) (caddr l)))
        ((= n 4) (f (car l) (cadr l) (caddr l) (cadddr l)))
        (true (f (car l) (cadr l) (caddr l) (cadddr l) (car (cddr (cddr l))))))))
  (defun tcall-n (f l)
    (let n (length l)
      (cond
        ((= n 1) (tc1 f (car l)))
        ((= n 2) (tc2 f (car l) (cadr l)))
        ((= n 3) (tc3 f (car l) (cadr l) (caddr l)))
        ((= n 4) (tc4 f (car l) (cadr l) (caddr l) (cadddr l)))
        (true (tc5 f (car l) (cadr l) (caddr l) (cadddr l) (car (cddr (cddr l))))))))
  (defun fcall-n (f l)
    (let n (length l)
      (cond
        ((= n 1) (f (cons 1 (car l))))
        ((= n 2) (f (cons 1 (car l)) (cons 2 (cadr l))))
        ((= n 3) (f (cons 1 (car l)) (cons 2 (cadr l)) (cons 3 (caddr l))))
        ((= n 4) (f (cons 1 (car l)) (cons 2 (cadr l)) (cons 3 (caddr l)) (cons 4 (cadddr l))))
        (true (f (cons 1 (car l)) (cons 2 (cadr l)) (cons 3 (caddr l)) (cons 4 (cadddr l)) (cons 5 (car (cddr (cddr l)))))))))
  (defun mkclo (k a b)
    (cond
      ((= k 0) (lambda (x) [x a b]))
      ((= k 1) (lambda (x y z) [x y z a b]))
      ((= k 2) (lambda (x y) (lambda (z w) [x y z w a])))
      ((= k 3) (lambda (x) (begin (garb 3) (lambda (y) (begin (garb 2) (lambda (z) (begin (garb 4) [x y z b])))))))
      ((= k 4) (lambda (x y z w v) [v w z y x a b]))
      (true (lambda (x) (begin (set 'work/heap#g0 x) (lambda (y z) [work/heap#g0 x y z a b]))))))
  (defun gset-static (k v)
    (cond
      ((= k 0) (set 'work/heap#g0 v))
      ((= k 1) (set 'work/heap#g1 v))
      ((= k 2) (set 'work/heap#g2 v))
      (true (set 'work/heap#g3 v))))
  (defun gref (k)
    (cond
      ((= k 0) work/heap#g0)
      ((= k 1) work/heap#g1)
      ((= k 2) work/heap#g2)
      (true work/heap#g3)))
  (defun regs-of (l) (map reg l))
  (defun upd-list (l i v)
    (if (= i 0) (cons v (cdr l))
      (cons (car l) (upd-list (cdr l) (- i 1) v))))
  (defun fill-vec (v i n x)
    (if (= i n) v
      (begin (vector-set! v i (cons i x)) (fill-vec v (+ i 1) n x))))''')
    w('''  (defun exec (o a)
    (cond
      ((= o 'cons) (reg! (car a) (cons (reg (cadr a)) (reg (caddr a)))))
      ((= o 'num) (reg! (car a) (cadr a)))
      ((= o 'lst) (reg! (car a) (mklist (cadr a) (caddr a))))
      ((= o 'upd) (reg! (car a) (upd-list (reg (cadr a)) (caddr a) (reg (cadddr a)))))
      ((= o 'rev) (reg! (car a) (reverse (reg (cadr a)))))
      ((= o 'apnd) (reg! (car a) (append (reg (cadr a)) (reg (caddr a)))))
      ((= o 'car) (reg! (car a) (car (reg (cadr a)))))
      ((= o 'cdr) (reg! (car a) (cdr (reg (cadr a)))))
      ((= o 'vec) (reg! (car a) (vector (cadr a))))
      ((= o 'vfill) (let v (vector (cadr a)) (reg! (car a) (fill-vec v 0 (cadr a) (reg (caddr a))))))
      ((= o 'vset) (vector-set! (reg (car a)) (cadr a) (reg (caddr a))))
      ((= o 'vnew) (vector-set! (reg (car a)) (cadr a) (cons (caddr a) (cons (reg (cadddr a)) ()))))
      ((= o 'vget) (reg! (car a) (vector-ref (reg (cadr a)) (caddr a))))
      ((= o 'vcap) (reg! (car a) (sim-vcap 0 (cadr a))))
      ((= o 'vapp) (reg! (car a) (sim-vappend (reg (cadr a)) (reg (caddr a)))))
      ((= o 'gs) (let s (gensym) (begin (set s (reg (cadr a))) (reg! (car a) s))))
      ((= o 'gset) (set (reg (car a)) (reg (cadr a))))
      ((= o 'gnew) (set (reg (car a)) (cons (cadr a) (reg (caddr a)))))
      ((= o 'gget) (reg! (car a) (value (reg (cadr a)))))
      ((= o 'glob) (gset-static (car a) (reg (cadr a))))
      ((= o 'gldyn) (set (car a) (reg (cadr a))))
      ((= o 'gref) (reg! (car a) (gref (cadr a))))
      ((= o 'clo) (reg! (car a) (mkclo (cadr a) (reg (caddr a)) (reg (cadddr a)))))
      ((= o 'call) (reg! (car a) (call-n (reg (cadr a)) (regs-of (cddr a)))))
      ((= o 'tcall) (reg! (car a) (tcall-n (reg (cadr a)) (regs-of (cddr a)))))
      ((= o 'fcall) (reg! (car a) (fcall-n (reg (cadr a)) (regs-of (cddr a)))))
      ((= o 'apl) (reg! (car a) (apply (reg (cadr a)) (regs-of (cddr a)))))
      ((= o 'str) (reg! (car a) (sim-fill (bytes (cadr a)) (caddr a))))
      ((= o 'chk) (sim-check (reg (car a)) (cadr a) (caddr a)))
      ((= o 'lit) (reg! (car a) (cadr a)))
      ((= o 'sapp) (reg! (car a) (string-append (reg (cadr a)) (reg (caddr a)))))
      ((= o 'clr) (reg! (car a) ()))
      ((= o 'mov) (reg! (car a) (reg (cadr a))))
      ((= o 'garb) (garb (car a)))
      ((= o 'garbv) (garbv (car a) (cadr a)))
      ((= o 'log) (sim-log 'log (reg (car a))))
      ((= o 'all) (sim-log 'all [work/heap#regs work/heap#g0 work/heap#g1 work/heap#g2 work/heap#g3]))
      ((= o 'enter) (let k (car a) x (reg (cadr a))
                      (cond
                        ((= k 0) (enter0 x))
                        ((= k 1) (enter1 x))
                        ((= k 2) (enter2 x))
                        ((= k 3) (enter3 x))
                        ((= k 4) (enter4 x))
                        ((= k 5) (enter5 x))
                        (true (enter6 x)))))
      ((= o 'enterk) (if (= (car a) 0) (enterk0 (reg (cadr a)) (caddr a)) (enterk1 (reg (cadr a)) (caddr a))))
      ((= o 'deep) (begin (deep (car a) (reg (cadr a))) (sim-log 'deep (car a))))
      ((= o 'try) (sim-log 'tryret (try (lambda () (run)) (lambda (v k) (handle v k)))))
      ((= o 'throw) (sim-log 'thr (throw [(car a) (cadr a) (reg (caddr a))])))
      ((= o 'throwk) (let m [(cadr a) (caddr a) (reg (cadddr a))] x (reg (car (cddr (cddr a))))
                       (cond
                         ((= (car a) 0) (throwk0 m x))
                         ((= (car a) 1) (throwk1 m x))
                         ((= (car a) 2) (throwk2 m x))
                         (true (throwk3 m x)))))
      ((= o 'resume) (let k (reg (car a))
                       (begin (reg! (car a) ())
                              (sim-log 'res (k (reg (cadr a)))))))
      ((= o 'tryh) (let x (reg (car a)) (hold (try (lambda () (trybody x)) (lambda (v k) (handle v k))))))
      ((= o 'resumeh) (let k (reg (car a))
                       (begin (reg! (car a) ())
                              (hold (k (reg (cadr a)))))))
      ((= o 'tail) (let s0 (tail-go (car a) 0 (reg (caddr a)))
                     (let s1 (tail-go (car a) (cadr a) (reg (caddr a)))
                       (sim-log 'tail [(car s1) (cadr s1) (same-stack (caddr s0) (caddr s1))]))))
      ((= o 'mark) (begin (set 'work/heap#m0 (sim-serial)) (set 'work/heap#m1 (sim-cheap))))
      ((= o 'live) (sim-log 'live [(sim-live-since work/heap#m0 (sim-serial)) (- (sim-cheap) work/heap#m1)]))
      ((= o 'arenas) (sim-log 'arenas [(sim-arenas) (sim-pages) (- (sim-cheap) work/heap#m1)]))
      ((= o 'churn) (churn (car a) (cadr a)))
      ((= o 'churnk) (churnk (car a) (cadr a)))
      ((= o 'stirv) (stirv (reg (car a)) 0 (cadr a) (caddr a)))
      ((= o 'mix) (begin (mix (reg (car a)) 0 (cadr a) (caddr a) (car (cdr (cdr (cdr a)))))
                         (sim-log 'mix (mixed (reg (car a)) 0))))
      ((= o 'stk) (sim-log 'stk (sim-stack)))
      ((= o 'settle) (settle (+ (sim-flips) (car a))))
      (true (sim-fail o))))
  (defun settle (target)
    (if (> (sim-flips) target) 'settled
      (begin (garb 20) (settle target))))
  (defun same-stack (a b)
    (if (= (car a) (car b)) (if (= (cadr a) (cadr b)) (= (caddr a) (caddr b)) false) false))
  (defun tail-go (k n x)
    (cond
      ((= k 0) (tail-loop n 0 x))
      ((= k 1) (tail-clo (lambda (f n acc) (if (= n 0) [acc x (sim-stack)] (f f (- n 1) (+ acc 1)))) n 0))
      ((= k 2) (tail-apl n 0 x))
      ((= k 3) (tail-cur n 0 x))
      ((= k 4) (tail-big n 0 x))
      ((= k 5) (tail-over n 0 x))
      ((= k 7) (tail-clo (eval `(lambda (f n acc) (if (= n 0) (cons acc (cons x (cons (work/sim#sim-stack) ()))) (f f (- n 1) (+ acc 1)))) [(cons 'x x)]) n 0))
      ((= k 8) (tail-clo (eval `(lambda (f n acc) (let m (- n 1) (do (cons m m) (if (= m -1) (cons acc (cons x (cons (work/sim#sim-stack) ()))) (apply f (cons f (cons m (cons (+ acc 1) ()))))))))
                               [(cons 'x x)]) n 0))
      (true (tail-cond n 0 x))))
  (defun tail-loop (n acc x)
    (if (= n 0) [acc x (sim-stack)]
      (tail-loop2 (- n 1) (+ acc 1) x n)))
  (defun tail-loop2 (n acc x m)
    (if (= (+ n 1) m) (tail-loop n acc x) 'bad))
  (defun tail-clo (f n acc) (f f n acc))
  (defun tail-apl (n acc x)
    (if (= n 0) [acc x (sim-stack)]
      (apply tail-apl [(- n 1) (+ acc 1) x])))
  (defun tail-cur (n acc x)
    (if (= n 0) [acc x (sim-stack)]
      (let f (tail-cur (- n 1) (+ acc 1)) (f x))))
  (defun tail-over1 (n) (lambda (acc x) (if (= n 0) [acc x (sim-stack)] (tail-over1 (- n 1) (+ acc 1) x))))
  (defun tail-over (n acc x) (tail-over1 n acc x))
  (defun tail-cond (n acc x)
    (cond
      ((= n 0) [acc x (sim-stack)])
      ((= acc -1) 'bad)
      (true (let m (- n 1) a (+ acc 1) (begin (cons m a) (if (> m -1) (tail-cond m a x) 'bad))))))
  (defun tail-big (n acc x)
    (if (= n 0) [acc x (sim-stack)]
      (tail-big1 n acc x)))
  (defun tail-big1 (n acc x)
    ''')
    w(lets(180, "(tail-big (- n 1) (+ acc (- l180 l179)) x)", "(+ acc %d)") + ")")
    w('''  (defun churn (n sz)
    (if (= n 0) 0
      (begin (if (> sz 0) (bytes sz) (cons n n)) (churn (- n 1) sz))))
  (defun churnk (n d)
    (if (= n 0) 0
      (begin (try (lambda () (dropk d n)) (lambda (v k) v)) (churnk (- n 1) d))))
  (defun dropk (d n)
    (if (= d 0) (throw n)
      (+ 1 (dropk (- d 1) n))))
  (defun stirv (v k n sz)
    (if (= n 0) 0
      (begin (vector-set! v k (cons n (bytes sz))) (stirv v (if (= k 15) 0 (+ k 1)) (- n 1) sz))))
  (defun mix (v i n sz k)
    (if (= n 0) 0
      (begin (vector-set! v i (cons n (bytes sz))) (litter k) (mix v (if (= i 3) 0 (+ i 1)) (- n 1) sz k))))
  (defun litter (k)
    (if (= k 0) 0 (begin (cons k k) (litter (- k 1)))))
  (defun mixed (v i)
    (if (= i 4) () (cons (car (vector-ref v i)) (mixed v (+ i 1)))))
  (defun main ()
    (begin
      (set 'work/heap#regs (fill0 (vector 16) 0 16))
      (set 'work/heap#g0 ()) (set 'work/heap#g1 ()) (set 'work/heap#g2 ()) (set 'work/heap#g3 ())
      (let r (run)
        (begin
          (sim-log 'final [work/heap#regs work/heap#g0 work/heap#g1 work/heap#g2 work/heap#g3])
          r))))
  (defun fill0 (v i n)
    (if (= i n) v (begin (vector-set! v i ()) (fill0 v (+ i 1) n))))
)''')
    return "\n".join(out) + "\n"


def generate(d):
    with open(os.path.join(d, "heap.cora"), "w") as f:
        f.write(heap())
