package ioutil

import (
	"io/fs"

	"github.com/pandatix/go-abnf/zsim/simrt/world"
)

func ReadFile(name string) ([]byte, error) { return world.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return world.WriteFile(name, data, perm)
}
