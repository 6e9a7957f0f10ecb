package http

// SimRoundTrip, when set, replaces every real HTTP exchange.
var SimRoundTrip func(*Request) (*Response, error)
