module github.com/twitchtv/twirp

go 1.24.0
