package core

import "math"

// CardinalityRange is where a HyperLogLog estimate of precision p of n distinct
// values must lie. It is generous: for small sets, no more collisions than
// happen once in a thousand million; else more than six standard errors of the
// logarithm of the estimate (for small counts, of linear counting's collisions).
// With few registers an overestimate has a longer tail: over ten million
// counters of precision 4, 5 and 6 reached 7.4, 5.8 and 5.3 upwards and never
// more than 4.5 downwards. Above that it is never
// tighter than two.
func CardinalityRange(n, p int) (lo, hi float64) {
	if n == 0 {
		return 0, 0
	}
	m, x := math.Exp2(float64(p)), float64(n)
	se := 1.04 / math.Sqrt(m)
	// linear counting: standard deviation of the number of empty registers
	t := x / m
	if t < 5 {
		se = math.Min(se, math.Sqrt(m*(math.Exp(t)-t-1))/x)
		se = math.Max(se, 0.5/x)
	}
	up, down := 6.5, 6.2
	switch p {
	case 4:
		up = 12
	case 5:
		up = 9
	case 6:
		up = 7.5
	}
	lo, hi = x*math.Exp(-down*se)-2, x*math.Exp(up*se)+2
	if t < 0.25 {
		// every register but those of colliding values is taken
		lambda := x * (x - 1) / (2 * m)
		c, tail, term := 0, 1-math.Exp(-lambda), math.Exp(-lambda)
		for tail > 1e-9 && c < n {
			c++
			term *= lambda / float64(c)
			tail -= term
		}
		lo = m*math.Log(m/(m-float64(n-c))) - 0.5
		hi = m*math.Log(m/(m-x)) + 1
	}
	return
}
