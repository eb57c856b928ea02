package main

import (
	"math"
	"math/rand"

	"github.com/mmadfox/go-gpsgen/geo"
)

// Independent spherical geometry: 3-D vectors instead of the haversine and
// bearing formulas of the code under test.

const earthR = 6371e3

type vec [3]float64

func toVec(lat, lon float64) vec {
	f, l := lat*math.Pi/180, lon*math.Pi/180
	return vec{math.Cos(f) * math.Cos(l), math.Cos(f) * math.Sin(l), math.Sin(f)}
}
func dot(a, b vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func cross(a, b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func norm(a vec) float64 { return math.Sqrt(dot(a, a)) }
func unit(a vec) vec {
	n := norm(a)
	return vec{a[0] / n, a[1] / n, a[2] / n}
}
func sub(a, b vec) vec { return vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func scale(a vec, k float64) vec {
	return vec{a[0] * k, a[1] * k, a[2] * k}
}

// gcDist is the great-circle distance in metres.
func gcDist(latA, lonA, latB, lonB float64) float64 {
	a, b := toVec(latA, lonA), toVec(latB, lonB)
	// chord based, accurate for small distances
	return 2 * earthR * math.Asin(math.Min(1, norm(sub(a, b))/2))
}

func frame(latA, lonA, latB, lonB float64) (a, t vec, ok bool) {
	a = toVec(latA, lonA)
	d := sub(toVec(latB, lonB), a)
	// tangent at a towards b
	t = sub(d, scale(a, dot(d, a)))
	if norm(t) < 1e-14 {
		return a, t, false
	}
	return a, unit(t), true
}

// gcBearing is the initial bearing in degrees.
func gcBearing(latA, lonA, latB, lonB float64) float64 {
	_, t, ok := frame(latA, lonA, latB, lonB)
	if !ok {
		return 0
	}
	f, l := latA*math.Pi/180, lonA*math.Pi/180
	e := vec{-math.Sin(l), math.Cos(l), 0}
	n := vec{-math.Sin(f) * math.Cos(l), -math.Sin(f) * math.Sin(l), math.Cos(f)}
	return math.Mod(math.Atan2(dot(t, e), dot(t, n))*180/math.Pi+360, 360)
}

// project gives the along- and cross-track distance in metres of P on the great circle A->B.
func project(latA, lonA, latB, lonB, lat, lon float64) (along, lateral float64) {
	a, t, ok := frame(latA, lonA, latB, lonB)
	p := toVec(lat, lon)
	if !ok {
		return 0, 2 * earthR * math.Asin(math.Min(1, norm(sub(p, a))/2))
	}
	w := cross(a, t)
	z := dot(p, w)
	return earthR * math.Atan2(dot(p, t), dot(p, a)), earthR * math.Asin(math.Max(-1, math.Min(1, z)))
}

// gcDest is the point at a distance and initial bearing.
func gcDest(lat, lon, m, bearing float64) (float64, float64) {
	f, l, b := lat*math.Pi/180, lon*math.Pi/180, bearing*math.Pi/180
	e := vec{-math.Sin(l), math.Cos(l), 0}
	n := vec{-math.Sin(f) * math.Cos(l), -math.Sin(f) * math.Sin(l), math.Cos(f)}
	a := toVec(lat, lon)
	d := m / earthR
	t := vec{}
	for i := 0; i < 3; i++ {
		t[i] = e[i]*math.Sin(b) + n[i]*math.Cos(b)
	}
	p := vec{}
	for i := 0; i < 3; i++ {
		p[i] = a[i]*math.Cos(d) + t[i]*math.Sin(d)
	}
	return math.Atan2(p[2], math.Hypot(p[0], p[1])) * 180 / math.Pi, math.Atan2(p[1], p[0]) * 180 / math.Pi
}

// utmForward is the Krueger series (order 6) for WGS84 around a central meridian.
func utmForward(lat, lon, cm float64, north bool) (e, n float64) {
	const a = 6378137.0
	const f = 1 / 298.257223563
	nn := f / (2 - f)
	n2, n3, n4 := nn*nn, nn*nn*nn, nn*nn*nn*nn
	A := a / (1 + nn) * (1 + n2/4 + n4/64)
	al := []float64{
		nn/2 - 2*n2/3 + 5*n3/16 + 41*n4/180,
		13*n2/48 - 3*n3/5 + 557*n4/1440,
		61*n3/240 - 103*n4/140,
		49561 * n4 / 161280,
	}
	phi := lat * math.Pi / 180
	dl := math.Remainder(lon-cm, 360) * math.Pi / 180
	c := 2 * math.Sqrt(nn) / (1 + nn)
	t := math.Sinh(math.Atanh(math.Sin(phi)) - c*math.Atanh(c*math.Sin(phi)))
	xi := math.Atan2(t, math.Cos(dl))
	eta := math.Atanh(math.Sin(dl) / math.Sqrt(1+t*t))
	E, N := eta, xi
	for j := 1; j <= 4; j++ {
		E += al[j-1] * math.Cos(2*float64(j)*xi) * math.Sinh(2*float64(j)*eta)
		N += al[j-1] * math.Sin(2*float64(j)*xi) * math.Cosh(2*float64(j)*eta)
	}
	e = 500000 + 0.9996*A*E
	n = 0.9996 * A * N
	if !north {
		n += 10000000
	}
	return
}

// navPoints is a walk of n points around a place.
func navPoints(lat, lon float64, n int, size float64, rng *rand.Rand) []geo.LatLonPoint {
	ps := make([]geo.LatLonPoint, n)
	for i := range ps {
		ps[i] = geo.LatLonPoint{Lat: lat, Lon: lon}
		lat += (rng.Float64() - 0.5) * size
		lon += (rng.Float64() - 0.5) * size
	}
	return ps
}
