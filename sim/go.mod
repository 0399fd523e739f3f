module simv

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/qmuntal/gltf v0.0.0
)

replace github.com/qmuntal/gltf => /repo
