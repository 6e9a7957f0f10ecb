package net

import "context"

// SimDial, when set, replaces every outgoing connection attempt.
var SimDial func(ctx context.Context, network, address string) (Conn, error)
