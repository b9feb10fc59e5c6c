package zzmodel

import "net"

// Listen is what listening on an address gives.
var Listen func(network, address string) (net.Listener, error)

//zz:for net.Listen
func netListen(network, address string) (net.Listener, error) {
	return Listen(network, address)
}
