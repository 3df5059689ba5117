// Package simmqtt is where instrumented code makes its MQTT client.
package simmqtt

import mqtt "github.com/eclipse/paho.mqtt.golang"

// Hook makes the client if it is set.
var Hook func(*mqtt.ClientOptions) mqtt.Client

func NewClient(o *mqtt.ClientOptions) mqtt.Client {
	if Hook != nil {
		return Hook(o)
	}
	return mqtt.NewClient(o)
}
