package theta
defaultprops P04
// generated by bin/genbits.py
func packBits1
  mode bv
  requires len(values) >= 8 && len(bytes) >= 1
  requires values[0] < 2
  requires values[1] < 2
  requires values[2] < 2
  requires values[3] < 2
  requires values[4] < 2
  requires values[5] < 2
  requires values[6] < 2
  requires values[7] < 2
  modifies bytes[0..1]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 1) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 1, 1) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 2, 1) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 3, 1) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 4, 1) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 5, 1) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 6, 1) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 7, 1) == values[7]
func unpackBits1
  mode bv
  requires len(values) >= 8 && len(bytes) >= 1
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 1)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 1, 1)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 2, 1)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 3, 1)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 4, 1)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 5, 1)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 6, 1)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 7, 1)
func packBits2
  mode bv
  requires len(values) >= 8 && len(bytes) >= 2
  requires values[0] < 4
  requires values[1] < 4
  requires values[2] < 4
  requires values[3] < 4
  requires values[4] < 4
  requires values[5] < 4
  requires values[6] < 4
  requires values[7] < 4
  modifies bytes[0..2]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 2) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 2, 2) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 4, 2) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 6, 2) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 8, 2) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 10, 2) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 12, 2) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 14, 2) == values[7]
func unpackBits2
  mode bv
  requires len(values) >= 8 && len(bytes) >= 2
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 2)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 2, 2)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 4, 2)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 6, 2)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 8, 2)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 10, 2)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 12, 2)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 14, 2)
func packBits3
  mode bv
  requires len(values) >= 8 && len(bytes) >= 3
  requires values[0] < 8
  requires values[1] < 8
  requires values[2] < 8
  requires values[3] < 8
  requires values[4] < 8
  requires values[5] < 8
  requires values[6] < 8
  requires values[7] < 8
  modifies bytes[0..3]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 3) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 3, 3) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 6, 3) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 9, 3) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 12, 3) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 15, 3) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 18, 3) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 21, 3) == values[7]
func unpackBits3
  mode bv
  requires len(values) >= 8 && len(bytes) >= 3
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 3)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 3, 3)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 6, 3)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 9, 3)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 12, 3)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 15, 3)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 18, 3)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 21, 3)
func packBits4
  mode bv
  requires len(values) >= 8 && len(bytes) >= 4
  requires values[0] < 16
  requires values[1] < 16
  requires values[2] < 16
  requires values[3] < 16
  requires values[4] < 16
  requires values[5] < 16
  requires values[6] < 16
  requires values[7] < 16
  modifies bytes[0..4]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 4) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 4, 4) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 8, 4) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 12, 4) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 16, 4) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 20, 4) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 24, 4) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 28, 4) == values[7]
func unpackBits4
  mode bv
  requires len(values) >= 8 && len(bytes) >= 4
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 4)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 4, 4)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 8, 4)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 12, 4)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 16, 4)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 20, 4)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 24, 4)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 28, 4)
func packBits5
  mode bv
  requires len(values) >= 8 && len(bytes) >= 5
  requires values[0] < 32
  requires values[1] < 32
  requires values[2] < 32
  requires values[3] < 32
  requires values[4] < 32
  requires values[5] < 32
  requires values[6] < 32
  requires values[7] < 32
  modifies bytes[0..5]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 5) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 5, 5) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 10, 5) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 15, 5) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 20, 5) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 25, 5) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 30, 5) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 35, 5) == values[7]
func unpackBits5
  mode bv
  requires len(values) >= 8 && len(bytes) >= 5
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 5)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 5, 5)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 10, 5)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 15, 5)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 20, 5)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 25, 5)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 30, 5)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 35, 5)
func packBits6
  mode bv
  requires len(values) >= 8 && len(bytes) >= 6
  requires values[0] < 64
  requires values[1] < 64
  requires values[2] < 64
  requires values[3] < 64
  requires values[4] < 64
  requires values[5] < 64
  requires values[6] < 64
  requires values[7] < 64
  modifies bytes[0..6]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 6) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 6, 6) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 12, 6) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 18, 6) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 24, 6) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 30, 6) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 36, 6) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 42, 6) == values[7]
func unpackBits6
  mode bv
  requires len(values) >= 8 && len(bytes) >= 6
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 6)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 6, 6)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 12, 6)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 18, 6)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 24, 6)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 30, 6)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 36, 6)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 42, 6)
func packBits7
  mode bv
  requires len(values) >= 8 && len(bytes) >= 7
  requires values[0] < 128
  requires values[1] < 128
  requires values[2] < 128
  requires values[3] < 128
  requires values[4] < 128
  requires values[5] < 128
  requires values[6] < 128
  requires values[7] < 128
  modifies bytes[0..7]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 7) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 7, 7) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 14, 7) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 21, 7) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 28, 7) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 35, 7) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 42, 7) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 49, 7) == values[7]
func unpackBits7
  mode bv
  requires len(values) >= 8 && len(bytes) >= 7
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 7)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 7, 7)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 14, 7)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 21, 7)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 28, 7)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 35, 7)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 42, 7)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 49, 7)
func packBits8
  mode bv
  requires len(values) >= 8 && len(bytes) >= 8
  requires values[0] < 256
  requires values[1] < 256
  requires values[2] < 256
  requires values[3] < 256
  requires values[4] < 256
  requires values[5] < 256
  requires values[6] < 256
  requires values[7] < 256
  modifies bytes[0..8]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 8) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 8, 8) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 16, 8) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 24, 8) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 32, 8) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 40, 8) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 48, 8) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 56, 8) == values[7]
func unpackBits8
  mode bv
  requires len(values) >= 8 && len(bytes) >= 8
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 8)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 8, 8)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 16, 8)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 24, 8)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 32, 8)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 40, 8)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 48, 8)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 56, 8)
func packBits9
  mode bv
  requires len(values) >= 8 && len(bytes) >= 9
  requires values[0] < 512
  requires values[1] < 512
  requires values[2] < 512
  requires values[3] < 512
  requires values[4] < 512
  requires values[5] < 512
  requires values[6] < 512
  requires values[7] < 512
  modifies bytes[0..9]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 9) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 9, 9) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 18, 9) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 27, 9) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 36, 9) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 45, 9) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 54, 9) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 63, 9) == values[7]
func unpackBits9
  mode bv
  requires len(values) >= 8 && len(bytes) >= 9
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 9)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 9, 9)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 18, 9)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 27, 9)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 36, 9)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 45, 9)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 54, 9)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 63, 9)
func packBits10
  mode bv
  requires len(values) >= 8 && len(bytes) >= 10
  requires values[0] < 1024
  requires values[1] < 1024
  requires values[2] < 1024
  requires values[3] < 1024
  requires values[4] < 1024
  requires values[5] < 1024
  requires values[6] < 1024
  requires values[7] < 1024
  modifies bytes[0..10]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 10) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 10, 10) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 20, 10) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 30, 10) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 40, 10) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 50, 10) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 60, 10) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 70, 10) == values[7]
func unpackBits10
  mode bv
  requires len(values) >= 8 && len(bytes) >= 10
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 10)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 10, 10)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 20, 10)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 30, 10)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 40, 10)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 50, 10)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 60, 10)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 70, 10)
func packBits11
  mode bv
  requires len(values) >= 8 && len(bytes) >= 11
  requires values[0] < 2048
  requires values[1] < 2048
  requires values[2] < 2048
  requires values[3] < 2048
  requires values[4] < 2048
  requires values[5] < 2048
  requires values[6] < 2048
  requires values[7] < 2048
  modifies bytes[0..11]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 11) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 11, 11) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 22, 11) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 33, 11) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 44, 11) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 55, 11) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 66, 11) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 77, 11) == values[7]
func unpackBits11
  mode bv
  requires len(values) >= 8 && len(bytes) >= 11
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 11)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 11, 11)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 22, 11)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 33, 11)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 44, 11)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 55, 11)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 66, 11)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 77, 11)
func packBits12
  mode bv
  requires len(values) >= 8 && len(bytes) >= 12
  requires values[0] < 4096
  requires values[1] < 4096
  requires values[2] < 4096
  requires values[3] < 4096
  requires values[4] < 4096
  requires values[5] < 4096
  requires values[6] < 4096
  requires values[7] < 4096
  modifies bytes[0..12]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 12) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 12, 12) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 24, 12) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 36, 12) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 48, 12) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 60, 12) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 72, 12) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 84, 12) == values[7]
func unpackBits12
  mode bv
  requires len(values) >= 8 && len(bytes) >= 12
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 12)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 12, 12)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 24, 12)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 36, 12)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 48, 12)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 60, 12)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 72, 12)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 84, 12)
func packBits13
  mode bv
  requires len(values) >= 8 && len(bytes) >= 13
  requires values[0] < 8192
  requires values[1] < 8192
  requires values[2] < 8192
  requires values[3] < 8192
  requires values[4] < 8192
  requires values[5] < 8192
  requires values[6] < 8192
  requires values[7] < 8192
  modifies bytes[0..13]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 13) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 13, 13) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 26, 13) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 39, 13) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 52, 13) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 65, 13) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 78, 13) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 91, 13) == values[7]
func unpackBits13
  mode bv
  requires len(values) >= 8 && len(bytes) >= 13
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 13)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 13, 13)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 26, 13)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 39, 13)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 52, 13)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 65, 13)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 78, 13)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 91, 13)
func packBits14
  mode bv
  requires len(values) >= 8 && len(bytes) >= 14
  requires values[0] < 16384
  requires values[1] < 16384
  requires values[2] < 16384
  requires values[3] < 16384
  requires values[4] < 16384
  requires values[5] < 16384
  requires values[6] < 16384
  requires values[7] < 16384
  modifies bytes[0..14]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 14) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 14, 14) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 28, 14) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 42, 14) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 56, 14) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 70, 14) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 84, 14) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 98, 14) == values[7]
func unpackBits14
  mode bv
  requires len(values) >= 8 && len(bytes) >= 14
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 14)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 14, 14)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 28, 14)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 42, 14)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 56, 14)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 70, 14)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 84, 14)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 98, 14)
func packBits15
  mode bv
  requires len(values) >= 8 && len(bytes) >= 15
  requires values[0] < 32768
  requires values[1] < 32768
  requires values[2] < 32768
  requires values[3] < 32768
  requires values[4] < 32768
  requires values[5] < 32768
  requires values[6] < 32768
  requires values[7] < 32768
  modifies bytes[0..15]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 15) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 15, 15) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 30, 15) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 45, 15) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 60, 15) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 75, 15) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 90, 15) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 105, 15) == values[7]
func unpackBits15
  mode bv
  requires len(values) >= 8 && len(bytes) >= 15
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 15)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 15, 15)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 30, 15)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 45, 15)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 60, 15)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 75, 15)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 90, 15)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 105, 15)
func packBits16
  mode bv
  requires len(values) >= 8 && len(bytes) >= 16
  requires values[0] < 65536
  requires values[1] < 65536
  requires values[2] < 65536
  requires values[3] < 65536
  requires values[4] < 65536
  requires values[5] < 65536
  requires values[6] < 65536
  requires values[7] < 65536
  modifies bytes[0..16]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 16) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 16, 16) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 32, 16) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 48, 16) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 64, 16) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 80, 16) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 96, 16) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 112, 16) == values[7]
func unpackBits16
  mode bv
  requires len(values) >= 8 && len(bytes) >= 16
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 16)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 16, 16)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 32, 16)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 48, 16)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 64, 16)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 80, 16)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 96, 16)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 112, 16)
func packBits17
  mode bv
  requires len(values) >= 8 && len(bytes) >= 17
  requires values[0] < 131072
  requires values[1] < 131072
  requires values[2] < 131072
  requires values[3] < 131072
  requires values[4] < 131072
  requires values[5] < 131072
  requires values[6] < 131072
  requires values[7] < 131072
  modifies bytes[0..17]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 17) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 17, 17) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 34, 17) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 51, 17) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 68, 17) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 85, 17) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 102, 17) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 119, 17) == values[7]
func unpackBits17
  mode bv
  requires len(values) >= 8 && len(bytes) >= 17
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 17)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 17, 17)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 34, 17)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 51, 17)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 68, 17)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 85, 17)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 102, 17)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 119, 17)
func packBits18
  mode bv
  requires len(values) >= 8 && len(bytes) >= 18
  requires values[0] < 262144
  requires values[1] < 262144
  requires values[2] < 262144
  requires values[3] < 262144
  requires values[4] < 262144
  requires values[5] < 262144
  requires values[6] < 262144
  requires values[7] < 262144
  modifies bytes[0..18]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 18) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 18, 18) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 36, 18) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 54, 18) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 72, 18) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 90, 18) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 108, 18) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 126, 18) == values[7]
func unpackBits18
  mode bv
  requires len(values) >= 8 && len(bytes) >= 18
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 18)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 18, 18)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 36, 18)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 54, 18)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 72, 18)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 90, 18)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 108, 18)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 126, 18)
func packBits19
  mode bv
  requires len(values) >= 8 && len(bytes) >= 19
  requires values[0] < 524288
  requires values[1] < 524288
  requires values[2] < 524288
  requires values[3] < 524288
  requires values[4] < 524288
  requires values[5] < 524288
  requires values[6] < 524288
  requires values[7] < 524288
  modifies bytes[0..19]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 19) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 19, 19) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 38, 19) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 57, 19) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 76, 19) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 95, 19) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 114, 19) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 133, 19) == values[7]
func unpackBits19
  mode bv
  requires len(values) >= 8 && len(bytes) >= 19
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 19)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 19, 19)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 38, 19)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 57, 19)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 76, 19)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 95, 19)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 114, 19)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 133, 19)
func packBits20
  mode bv
  requires len(values) >= 8 && len(bytes) >= 20
  requires values[0] < 1048576
  requires values[1] < 1048576
  requires values[2] < 1048576
  requires values[3] < 1048576
  requires values[4] < 1048576
  requires values[5] < 1048576
  requires values[6] < 1048576
  requires values[7] < 1048576
  modifies bytes[0..20]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 20) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 20, 20) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 40, 20) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 60, 20) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 80, 20) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 100, 20) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 120, 20) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 140, 20) == values[7]
func unpackBits20
  mode bv
  requires len(values) >= 8 && len(bytes) >= 20
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 20)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 20, 20)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 40, 20)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 60, 20)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 80, 20)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 100, 20)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 120, 20)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 140, 20)
func packBits21
  mode bv
  requires len(values) >= 8 && len(bytes) >= 21
  requires values[0] < 2097152
  requires values[1] < 2097152
  requires values[2] < 2097152
  requires values[3] < 2097152
  requires values[4] < 2097152
  requires values[5] < 2097152
  requires values[6] < 2097152
  requires values[7] < 2097152
  modifies bytes[0..21]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 21) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 21, 21) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 42, 21) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 63, 21) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 84, 21) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 105, 21) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 126, 21) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 147, 21) == values[7]
func unpackBits21
  mode bv
  requires len(values) >= 8 && len(bytes) >= 21
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 21)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 21, 21)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 42, 21)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 63, 21)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 84, 21)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 105, 21)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 126, 21)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 147, 21)
func packBits22
  mode bv
  requires len(values) >= 8 && len(bytes) >= 22
  requires values[0] < 4194304
  requires values[1] < 4194304
  requires values[2] < 4194304
  requires values[3] < 4194304
  requires values[4] < 4194304
  requires values[5] < 4194304
  requires values[6] < 4194304
  requires values[7] < 4194304
  modifies bytes[0..22]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 22) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 22, 22) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 44, 22) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 66, 22) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 88, 22) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 110, 22) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 132, 22) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 154, 22) == values[7]
func unpackBits22
  mode bv
  requires len(values) >= 8 && len(bytes) >= 22
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 22)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 22, 22)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 44, 22)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 66, 22)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 88, 22)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 110, 22)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 132, 22)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 154, 22)
func packBits23
  mode bv
  requires len(values) >= 8 && len(bytes) >= 23
  requires values[0] < 8388608
  requires values[1] < 8388608
  requires values[2] < 8388608
  requires values[3] < 8388608
  requires values[4] < 8388608
  requires values[5] < 8388608
  requires values[6] < 8388608
  requires values[7] < 8388608
  modifies bytes[0..23]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 23) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 23, 23) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 46, 23) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 69, 23) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 92, 23) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 115, 23) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 138, 23) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 161, 23) == values[7]
func unpackBits23
  mode bv
  requires len(values) >= 8 && len(bytes) >= 23
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 23)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 23, 23)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 46, 23)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 69, 23)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 92, 23)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 115, 23)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 138, 23)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 161, 23)
func packBits24
  mode bv
  requires len(values) >= 8 && len(bytes) >= 24
  requires values[0] < 16777216
  requires values[1] < 16777216
  requires values[2] < 16777216
  requires values[3] < 16777216
  requires values[4] < 16777216
  requires values[5] < 16777216
  requires values[6] < 16777216
  requires values[7] < 16777216
  modifies bytes[0..24]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 24) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 24, 24) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 48, 24) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 72, 24) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 96, 24) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 120, 24) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 144, 24) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 168, 24) == values[7]
func unpackBits24
  mode bv
  requires len(values) >= 8 && len(bytes) >= 24
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 24)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 24, 24)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 48, 24)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 72, 24)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 96, 24)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 120, 24)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 144, 24)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 168, 24)
func packBits25
  mode bv
  requires len(values) >= 8 && len(bytes) >= 25
  requires values[0] < 33554432
  requires values[1] < 33554432
  requires values[2] < 33554432
  requires values[3] < 33554432
  requires values[4] < 33554432
  requires values[5] < 33554432
  requires values[6] < 33554432
  requires values[7] < 33554432
  modifies bytes[0..25]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 25) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 25, 25) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 50, 25) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 75, 25) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 100, 25) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 125, 25) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 150, 25) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 175, 25) == values[7]
func unpackBits25
  mode bv
  requires len(values) >= 8 && len(bytes) >= 25
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 25)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 25, 25)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 50, 25)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 75, 25)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 100, 25)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 125, 25)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 150, 25)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 175, 25)
func packBits26
  mode bv
  requires len(values) >= 8 && len(bytes) >= 26
  requires values[0] < 67108864
  requires values[1] < 67108864
  requires values[2] < 67108864
  requires values[3] < 67108864
  requires values[4] < 67108864
  requires values[5] < 67108864
  requires values[6] < 67108864
  requires values[7] < 67108864
  modifies bytes[0..26]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 26) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 26, 26) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 52, 26) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 78, 26) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 104, 26) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 130, 26) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 156, 26) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 182, 26) == values[7]
func unpackBits26
  mode bv
  requires len(values) >= 8 && len(bytes) >= 26
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 26)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 26, 26)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 52, 26)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 78, 26)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 104, 26)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 130, 26)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 156, 26)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 182, 26)
func packBits27
  mode bv
  requires len(values) >= 8 && len(bytes) >= 27
  requires values[0] < 134217728
  requires values[1] < 134217728
  requires values[2] < 134217728
  requires values[3] < 134217728
  requires values[4] < 134217728
  requires values[5] < 134217728
  requires values[6] < 134217728
  requires values[7] < 134217728
  modifies bytes[0..27]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 27) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 27, 27) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 54, 27) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 81, 27) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 108, 27) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 135, 27) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 162, 27) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 189, 27) == values[7]
func unpackBits27
  mode bv
  requires len(values) >= 8 && len(bytes) >= 27
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 27)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 27, 27)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 54, 27)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 81, 27)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 108, 27)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 135, 27)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 162, 27)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 189, 27)
func packBits28
  mode bv
  requires len(values) >= 8 && len(bytes) >= 28
  requires values[0] < 268435456
  requires values[1] < 268435456
  requires values[2] < 268435456
  requires values[3] < 268435456
  requires values[4] < 268435456
  requires values[5] < 268435456
  requires values[6] < 268435456
  requires values[7] < 268435456
  modifies bytes[0..28]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 28) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 28, 28) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 56, 28) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 84, 28) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 112, 28) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 140, 28) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 168, 28) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 196, 28) == values[7]
func unpackBits28
  mode bv
  requires len(values) >= 8 && len(bytes) >= 28
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 28)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 28, 28)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 56, 28)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 84, 28)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 112, 28)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 140, 28)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 168, 28)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 196, 28)
func packBits29
  mode bv
  requires len(values) >= 8 && len(bytes) >= 29
  requires values[0] < 536870912
  requires values[1] < 536870912
  requires values[2] < 536870912
  requires values[3] < 536870912
  requires values[4] < 536870912
  requires values[5] < 536870912
  requires values[6] < 536870912
  requires values[7] < 536870912
  modifies bytes[0..29]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 29) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 29, 29) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 58, 29) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 87, 29) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 116, 29) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 145, 29) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 174, 29) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 203, 29) == values[7]
func unpackBits29
  mode bv
  requires len(values) >= 8 && len(bytes) >= 29
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 29)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 29, 29)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 58, 29)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 87, 29)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 116, 29)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 145, 29)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 174, 29)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 203, 29)
func packBits30
  mode bv
  requires len(values) >= 8 && len(bytes) >= 30
  requires values[0] < 1073741824
  requires values[1] < 1073741824
  requires values[2] < 1073741824
  requires values[3] < 1073741824
  requires values[4] < 1073741824
  requires values[5] < 1073741824
  requires values[6] < 1073741824
  requires values[7] < 1073741824
  modifies bytes[0..30]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 30) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 30, 30) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 60, 30) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 90, 30) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 120, 30) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 150, 30) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 180, 30) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 210, 30) == values[7]
func unpackBits30
  mode bv
  requires len(values) >= 8 && len(bytes) >= 30
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 30)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 30, 30)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 60, 30)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 90, 30)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 120, 30)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 150, 30)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 180, 30)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 210, 30)
func packBits31
  mode bv
  requires len(values) >= 8 && len(bytes) >= 31
  requires values[0] < 2147483648
  requires values[1] < 2147483648
  requires values[2] < 2147483648
  requires values[3] < 2147483648
  requires values[4] < 2147483648
  requires values[5] < 2147483648
  requires values[6] < 2147483648
  requires values[7] < 2147483648
  modifies bytes[0..31]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 31) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 31, 31) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 62, 31) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 93, 31) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 124, 31) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 155, 31) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 186, 31) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 217, 31) == values[7]
func unpackBits31
  mode bv
  requires len(values) >= 8 && len(bytes) >= 31
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 31)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 31, 31)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 62, 31)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 93, 31)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 124, 31)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 155, 31)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 186, 31)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 217, 31)
func packBits32
  mode bv
  requires len(values) >= 8 && len(bytes) >= 32
  requires values[0] < 4294967296
  requires values[1] < 4294967296
  requires values[2] < 4294967296
  requires values[3] < 4294967296
  requires values[4] < 4294967296
  requires values[5] < 4294967296
  requires values[6] < 4294967296
  requires values[7] < 4294967296
  modifies bytes[0..32]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 32) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 32, 32) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 64, 32) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 96, 32) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 128, 32) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 160, 32) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 192, 32) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 224, 32) == values[7]
func unpackBits32
  mode bv
  requires len(values) >= 8 && len(bytes) >= 32
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 32)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 32, 32)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 64, 32)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 96, 32)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 128, 32)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 160, 32)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 192, 32)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 224, 32)
func packBits33
  mode bv
  requires len(values) >= 8 && len(bytes) >= 33
  requires values[0] < 8589934592
  requires values[1] < 8589934592
  requires values[2] < 8589934592
  requires values[3] < 8589934592
  requires values[4] < 8589934592
  requires values[5] < 8589934592
  requires values[6] < 8589934592
  requires values[7] < 8589934592
  modifies bytes[0..33]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 33) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 33, 33) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 66, 33) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 99, 33) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 132, 33) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 165, 33) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 198, 33) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 231, 33) == values[7]
func unpackBits33
  mode bv
  requires len(values) >= 8 && len(bytes) >= 33
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 33)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 33, 33)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 66, 33)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 99, 33)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 132, 33)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 165, 33)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 198, 33)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 231, 33)
func packBits34
  mode bv
  requires len(values) >= 8 && len(bytes) >= 34
  requires values[0] < 17179869184
  requires values[1] < 17179869184
  requires values[2] < 17179869184
  requires values[3] < 17179869184
  requires values[4] < 17179869184
  requires values[5] < 17179869184
  requires values[6] < 17179869184
  requires values[7] < 17179869184
  modifies bytes[0..34]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 34) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 34, 34) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 68, 34) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 102, 34) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 136, 34) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 170, 34) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 204, 34) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 238, 34) == values[7]
func unpackBits34
  mode bv
  requires len(values) >= 8 && len(bytes) >= 34
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 34)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 34, 34)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 68, 34)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 102, 34)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 136, 34)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 170, 34)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 204, 34)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 238, 34)
func packBits35
  mode bv
  requires len(values) >= 8 && len(bytes) >= 35
  requires values[0] < 34359738368
  requires values[1] < 34359738368
  requires values[2] < 34359738368
  requires values[3] < 34359738368
  requires values[4] < 34359738368
  requires values[5] < 34359738368
  requires values[6] < 34359738368
  requires values[7] < 34359738368
  modifies bytes[0..35]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 35) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 35, 35) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 70, 35) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 105, 35) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 140, 35) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 175, 35) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 210, 35) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 245, 35) == values[7]
func unpackBits35
  mode bv
  requires len(values) >= 8 && len(bytes) >= 35
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 35)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 35, 35)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 70, 35)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 105, 35)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 140, 35)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 175, 35)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 210, 35)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 245, 35)
func packBits36
  mode bv
  requires len(values) >= 8 && len(bytes) >= 36
  requires values[0] < 68719476736
  requires values[1] < 68719476736
  requires values[2] < 68719476736
  requires values[3] < 68719476736
  requires values[4] < 68719476736
  requires values[5] < 68719476736
  requires values[6] < 68719476736
  requires values[7] < 68719476736
  modifies bytes[0..36]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 36) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 36, 36) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 72, 36) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 108, 36) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 144, 36) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 180, 36) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 216, 36) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 252, 36) == values[7]
func unpackBits36
  mode bv
  requires len(values) >= 8 && len(bytes) >= 36
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 36)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 36, 36)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 72, 36)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 108, 36)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 144, 36)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 180, 36)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 216, 36)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 252, 36)
func packBits37
  mode bv
  requires len(values) >= 8 && len(bytes) >= 37
  requires values[0] < 137438953472
  requires values[1] < 137438953472
  requires values[2] < 137438953472
  requires values[3] < 137438953472
  requires values[4] < 137438953472
  requires values[5] < 137438953472
  requires values[6] < 137438953472
  requires values[7] < 137438953472
  modifies bytes[0..37]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 37) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 37, 37) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 74, 37) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 111, 37) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 148, 37) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 185, 37) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 222, 37) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 259, 37) == values[7]
func unpackBits37
  mode bv
  requires len(values) >= 8 && len(bytes) >= 37
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 37)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 37, 37)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 74, 37)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 111, 37)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 148, 37)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 185, 37)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 222, 37)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 259, 37)
func packBits38
  mode bv
  requires len(values) >= 8 && len(bytes) >= 38
  requires values[0] < 274877906944
  requires values[1] < 274877906944
  requires values[2] < 274877906944
  requires values[3] < 274877906944
  requires values[4] < 274877906944
  requires values[5] < 274877906944
  requires values[6] < 274877906944
  requires values[7] < 274877906944
  modifies bytes[0..38]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 38) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 38, 38) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 76, 38) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 114, 38) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 152, 38) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 190, 38) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 228, 38) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 266, 38) == values[7]
func unpackBits38
  mode bv
  requires len(values) >= 8 && len(bytes) >= 38
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 38)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 38, 38)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 76, 38)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 114, 38)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 152, 38)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 190, 38)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 228, 38)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 266, 38)
func packBits39
  mode bv
  requires len(values) >= 8 && len(bytes) >= 39
  requires values[0] < 549755813888
  requires values[1] < 549755813888
  requires values[2] < 549755813888
  requires values[3] < 549755813888
  requires values[4] < 549755813888
  requires values[5] < 549755813888
  requires values[6] < 549755813888
  requires values[7] < 549755813888
  modifies bytes[0..39]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 39) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 39, 39) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 78, 39) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 117, 39) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 156, 39) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 195, 39) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 234, 39) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 273, 39) == values[7]
func unpackBits39
  mode bv
  requires len(values) >= 8 && len(bytes) >= 39
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 39)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 39, 39)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 78, 39)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 117, 39)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 156, 39)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 195, 39)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 234, 39)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 273, 39)
func packBits40
  mode bv
  requires len(values) >= 8 && len(bytes) >= 40
  requires values[0] < 1099511627776
  requires values[1] < 1099511627776
  requires values[2] < 1099511627776
  requires values[3] < 1099511627776
  requires values[4] < 1099511627776
  requires values[5] < 1099511627776
  requires values[6] < 1099511627776
  requires values[7] < 1099511627776
  modifies bytes[0..40]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 40) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 40, 40) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 80, 40) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 120, 40) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 160, 40) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 200, 40) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 240, 40) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 280, 40) == values[7]
func unpackBits40
  mode bv
  requires len(values) >= 8 && len(bytes) >= 40
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 40)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 40, 40)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 80, 40)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 120, 40)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 160, 40)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 200, 40)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 240, 40)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 280, 40)
func packBits41
  mode bv
  requires len(values) >= 8 && len(bytes) >= 41
  requires values[0] < 2199023255552
  requires values[1] < 2199023255552
  requires values[2] < 2199023255552
  requires values[3] < 2199023255552
  requires values[4] < 2199023255552
  requires values[5] < 2199023255552
  requires values[6] < 2199023255552
  requires values[7] < 2199023255552
  modifies bytes[0..41]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 41) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 41, 41) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 82, 41) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 123, 41) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 164, 41) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 205, 41) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 246, 41) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 287, 41) == values[7]
func unpackBits41
  mode bv
  requires len(values) >= 8 && len(bytes) >= 41
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 41)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 41, 41)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 82, 41)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 123, 41)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 164, 41)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 205, 41)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 246, 41)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 287, 41)
func packBits42
  mode bv
  requires len(values) >= 8 && len(bytes) >= 42
  requires values[0] < 4398046511104
  requires values[1] < 4398046511104
  requires values[2] < 4398046511104
  requires values[3] < 4398046511104
  requires values[4] < 4398046511104
  requires values[5] < 4398046511104
  requires values[6] < 4398046511104
  requires values[7] < 4398046511104
  modifies bytes[0..42]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 42) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 42, 42) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 84, 42) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 126, 42) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 168, 42) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 210, 42) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 252, 42) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 294, 42) == values[7]
func unpackBits42
  mode bv
  requires len(values) >= 8 && len(bytes) >= 42
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 42)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 42, 42)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 84, 42)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 126, 42)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 168, 42)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 210, 42)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 252, 42)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 294, 42)
func packBits43
  mode bv
  requires len(values) >= 8 && len(bytes) >= 43
  requires values[0] < 8796093022208
  requires values[1] < 8796093022208
  requires values[2] < 8796093022208
  requires values[3] < 8796093022208
  requires values[4] < 8796093022208
  requires values[5] < 8796093022208
  requires values[6] < 8796093022208
  requires values[7] < 8796093022208
  modifies bytes[0..43]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 43) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 43, 43) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 86, 43) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 129, 43) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 172, 43) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 215, 43) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 258, 43) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 301, 43) == values[7]
func unpackBits43
  mode bv
  requires len(values) >= 8 && len(bytes) >= 43
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 43)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 43, 43)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 86, 43)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 129, 43)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 172, 43)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 215, 43)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 258, 43)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 301, 43)
func packBits44
  mode bv
  requires len(values) >= 8 && len(bytes) >= 44
  requires values[0] < 17592186044416
  requires values[1] < 17592186044416
  requires values[2] < 17592186044416
  requires values[3] < 17592186044416
  requires values[4] < 17592186044416
  requires values[5] < 17592186044416
  requires values[6] < 17592186044416
  requires values[7] < 17592186044416
  modifies bytes[0..44]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 44) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 44, 44) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 88, 44) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 132, 44) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 176, 44) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 220, 44) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 264, 44) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 308, 44) == values[7]
func unpackBits44
  mode bv
  requires len(values) >= 8 && len(bytes) >= 44
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 44)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 44, 44)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 88, 44)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 132, 44)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 176, 44)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 220, 44)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 264, 44)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 308, 44)
func packBits45
  mode bv
  requires len(values) >= 8 && len(bytes) >= 45
  requires values[0] < 35184372088832
  requires values[1] < 35184372088832
  requires values[2] < 35184372088832
  requires values[3] < 35184372088832
  requires values[4] < 35184372088832
  requires values[5] < 35184372088832
  requires values[6] < 35184372088832
  requires values[7] < 35184372088832
  modifies bytes[0..45]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 45) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 45, 45) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 90, 45) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 135, 45) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 180, 45) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 225, 45) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 270, 45) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 315, 45) == values[7]
func unpackBits45
  mode bv
  requires len(values) >= 8 && len(bytes) >= 45
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 45)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 45, 45)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 90, 45)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 135, 45)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 180, 45)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 225, 45)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 270, 45)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 315, 45)
func packBits46
  mode bv
  requires len(values) >= 8 && len(bytes) >= 46
  requires values[0] < 70368744177664
  requires values[1] < 70368744177664
  requires values[2] < 70368744177664
  requires values[3] < 70368744177664
  requires values[4] < 70368744177664
  requires values[5] < 70368744177664
  requires values[6] < 70368744177664
  requires values[7] < 70368744177664
  modifies bytes[0..46]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 46) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 46, 46) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 92, 46) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 138, 46) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 184, 46) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 230, 46) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 276, 46) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 322, 46) == values[7]
func unpackBits46
  mode bv
  requires len(values) >= 8 && len(bytes) >= 46
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 46)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 46, 46)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 92, 46)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 138, 46)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 184, 46)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 230, 46)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 276, 46)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 322, 46)
func packBits47
  mode bv
  requires len(values) >= 8 && len(bytes) >= 47
  requires values[0] < 140737488355328
  requires values[1] < 140737488355328
  requires values[2] < 140737488355328
  requires values[3] < 140737488355328
  requires values[4] < 140737488355328
  requires values[5] < 140737488355328
  requires values[6] < 140737488355328
  requires values[7] < 140737488355328
  modifies bytes[0..47]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 47) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 47, 47) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 94, 47) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 141, 47) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 188, 47) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 235, 47) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 282, 47) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 329, 47) == values[7]
func unpackBits47
  mode bv
  requires len(values) >= 8 && len(bytes) >= 47
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 47)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 47, 47)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 94, 47)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 141, 47)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 188, 47)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 235, 47)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 282, 47)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 329, 47)
func packBits48
  mode bv
  requires len(values) >= 8 && len(bytes) >= 48
  requires values[0] < 281474976710656
  requires values[1] < 281474976710656
  requires values[2] < 281474976710656
  requires values[3] < 281474976710656
  requires values[4] < 281474976710656
  requires values[5] < 281474976710656
  requires values[6] < 281474976710656
  requires values[7] < 281474976710656
  modifies bytes[0..48]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 48) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 48, 48) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 96, 48) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 144, 48) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 192, 48) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 240, 48) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 288, 48) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 336, 48) == values[7]
func unpackBits48
  mode bv
  requires len(values) >= 8 && len(bytes) >= 48
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 48)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 48, 48)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 96, 48)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 144, 48)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 192, 48)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 240, 48)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 288, 48)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 336, 48)
func packBits49
  mode bv
  requires len(values) >= 8 && len(bytes) >= 49
  requires values[0] < 562949953421312
  requires values[1] < 562949953421312
  requires values[2] < 562949953421312
  requires values[3] < 562949953421312
  requires values[4] < 562949953421312
  requires values[5] < 562949953421312
  requires values[6] < 562949953421312
  requires values[7] < 562949953421312
  modifies bytes[0..49]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 49) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 49, 49) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 98, 49) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 147, 49) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 196, 49) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 245, 49) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 294, 49) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 343, 49) == values[7]
func unpackBits49
  mode bv
  requires len(values) >= 8 && len(bytes) >= 49
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 49)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 49, 49)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 98, 49)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 147, 49)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 196, 49)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 245, 49)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 294, 49)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 343, 49)
func packBits50
  mode bv
  requires len(values) >= 8 && len(bytes) >= 50
  requires values[0] < 1125899906842624
  requires values[1] < 1125899906842624
  requires values[2] < 1125899906842624
  requires values[3] < 1125899906842624
  requires values[4] < 1125899906842624
  requires values[5] < 1125899906842624
  requires values[6] < 1125899906842624
  requires values[7] < 1125899906842624
  modifies bytes[0..50]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 50) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 50, 50) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 100, 50) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 150, 50) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 200, 50) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 250, 50) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 300, 50) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 350, 50) == values[7]
func unpackBits50
  mode bv
  requires len(values) >= 8 && len(bytes) >= 50
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 50)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 50, 50)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 100, 50)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 150, 50)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 200, 50)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 250, 50)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 300, 50)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 350, 50)
func packBits51
  mode bv
  requires len(values) >= 8 && len(bytes) >= 51
  requires values[0] < 2251799813685248
  requires values[1] < 2251799813685248
  requires values[2] < 2251799813685248
  requires values[3] < 2251799813685248
  requires values[4] < 2251799813685248
  requires values[5] < 2251799813685248
  requires values[6] < 2251799813685248
  requires values[7] < 2251799813685248
  modifies bytes[0..51]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 51) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 51, 51) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 102, 51) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 153, 51) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 204, 51) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 255, 51) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 306, 51) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 357, 51) == values[7]
func unpackBits51
  mode bv
  requires len(values) >= 8 && len(bytes) >= 51
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 51)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 51, 51)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 102, 51)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 153, 51)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 204, 51)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 255, 51)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 306, 51)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 357, 51)
func packBits52
  mode bv
  requires len(values) >= 8 && len(bytes) >= 52
  requires values[0] < 4503599627370496
  requires values[1] < 4503599627370496
  requires values[2] < 4503599627370496
  requires values[3] < 4503599627370496
  requires values[4] < 4503599627370496
  requires values[5] < 4503599627370496
  requires values[6] < 4503599627370496
  requires values[7] < 4503599627370496
  modifies bytes[0..52]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 52) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 52, 52) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 104, 52) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 156, 52) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 208, 52) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 260, 52) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 312, 52) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 364, 52) == values[7]
func unpackBits52
  mode bv
  requires len(values) >= 8 && len(bytes) >= 52
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 52)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 52, 52)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 104, 52)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 156, 52)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 208, 52)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 260, 52)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 312, 52)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 364, 52)
func packBits53
  mode bv
  requires len(values) >= 8 && len(bytes) >= 53
  requires values[0] < 9007199254740992
  requires values[1] < 9007199254740992
  requires values[2] < 9007199254740992
  requires values[3] < 9007199254740992
  requires values[4] < 9007199254740992
  requires values[5] < 9007199254740992
  requires values[6] < 9007199254740992
  requires values[7] < 9007199254740992
  modifies bytes[0..53]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 53) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 53, 53) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 106, 53) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 159, 53) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 212, 53) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 265, 53) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 318, 53) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 371, 53) == values[7]
func unpackBits53
  mode bv
  requires len(values) >= 8 && len(bytes) >= 53
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 53)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 53, 53)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 106, 53)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 159, 53)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 212, 53)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 265, 53)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 318, 53)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 371, 53)
func packBits54
  mode bv
  requires len(values) >= 8 && len(bytes) >= 54
  requires values[0] < 18014398509481984
  requires values[1] < 18014398509481984
  requires values[2] < 18014398509481984
  requires values[3] < 18014398509481984
  requires values[4] < 18014398509481984
  requires values[5] < 18014398509481984
  requires values[6] < 18014398509481984
  requires values[7] < 18014398509481984
  modifies bytes[0..54]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 54) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 54, 54) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 108, 54) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 162, 54) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 216, 54) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 270, 54) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 324, 54) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 378, 54) == values[7]
func unpackBits54
  mode bv
  requires len(values) >= 8 && len(bytes) >= 54
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 54)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 54, 54)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 108, 54)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 162, 54)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 216, 54)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 270, 54)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 324, 54)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 378, 54)
func packBits55
  mode bv
  requires len(values) >= 8 && len(bytes) >= 55
  requires values[0] < 36028797018963968
  requires values[1] < 36028797018963968
  requires values[2] < 36028797018963968
  requires values[3] < 36028797018963968
  requires values[4] < 36028797018963968
  requires values[5] < 36028797018963968
  requires values[6] < 36028797018963968
  requires values[7] < 36028797018963968
  modifies bytes[0..55]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 55) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 55, 55) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 110, 55) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 165, 55) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 220, 55) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 275, 55) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 330, 55) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 385, 55) == values[7]
func unpackBits55
  mode bv
  requires len(values) >= 8 && len(bytes) >= 55
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 55)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 55, 55)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 110, 55)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 165, 55)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 220, 55)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 275, 55)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 330, 55)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 385, 55)
func packBits56
  mode bv
  requires len(values) >= 8 && len(bytes) >= 56
  requires values[0] < 72057594037927936
  requires values[1] < 72057594037927936
  requires values[2] < 72057594037927936
  requires values[3] < 72057594037927936
  requires values[4] < 72057594037927936
  requires values[5] < 72057594037927936
  requires values[6] < 72057594037927936
  requires values[7] < 72057594037927936
  modifies bytes[0..56]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 56) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 56, 56) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 112, 56) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 168, 56) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 224, 56) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 280, 56) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 336, 56) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 392, 56) == values[7]
func unpackBits56
  mode bv
  requires len(values) >= 8 && len(bytes) >= 56
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 56)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 56, 56)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 112, 56)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 168, 56)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 224, 56)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 280, 56)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 336, 56)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 392, 56)
func packBits57
  mode bv
  requires len(values) >= 8 && len(bytes) >= 57
  requires values[0] < 144115188075855872
  requires values[1] < 144115188075855872
  requires values[2] < 144115188075855872
  requires values[3] < 144115188075855872
  requires values[4] < 144115188075855872
  requires values[5] < 144115188075855872
  requires values[6] < 144115188075855872
  requires values[7] < 144115188075855872
  modifies bytes[0..57]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 57) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 57, 57) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 114, 57) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 171, 57) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 228, 57) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 285, 57) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 342, 57) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 399, 57) == values[7]
func unpackBits57
  mode bv
  requires len(values) >= 8 && len(bytes) >= 57
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 57)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 57, 57)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 114, 57)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 171, 57)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 228, 57)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 285, 57)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 342, 57)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 399, 57)
func packBits58
  mode bv
  requires len(values) >= 8 && len(bytes) >= 58
  requires values[0] < 288230376151711744
  requires values[1] < 288230376151711744
  requires values[2] < 288230376151711744
  requires values[3] < 288230376151711744
  requires values[4] < 288230376151711744
  requires values[5] < 288230376151711744
  requires values[6] < 288230376151711744
  requires values[7] < 288230376151711744
  modifies bytes[0..58]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 58) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 58, 58) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 116, 58) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 174, 58) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 232, 58) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 290, 58) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 348, 58) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 406, 58) == values[7]
func unpackBits58
  mode bv
  requires len(values) >= 8 && len(bytes) >= 58
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 58)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 58, 58)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 116, 58)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 174, 58)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 232, 58)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 290, 58)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 348, 58)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 406, 58)
func packBits59
  mode bv
  requires len(values) >= 8 && len(bytes) >= 59
  requires values[0] < 576460752303423488
  requires values[1] < 576460752303423488
  requires values[2] < 576460752303423488
  requires values[3] < 576460752303423488
  requires values[4] < 576460752303423488
  requires values[5] < 576460752303423488
  requires values[6] < 576460752303423488
  requires values[7] < 576460752303423488
  modifies bytes[0..59]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 59) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 59, 59) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 118, 59) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 177, 59) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 236, 59) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 295, 59) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 354, 59) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 413, 59) == values[7]
func unpackBits59
  mode bv
  requires len(values) >= 8 && len(bytes) >= 59
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 59)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 59, 59)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 118, 59)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 177, 59)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 236, 59)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 295, 59)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 354, 59)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 413, 59)
func packBits60
  mode bv
  requires len(values) >= 8 && len(bytes) >= 60
  requires values[0] < 1152921504606846976
  requires values[1] < 1152921504606846976
  requires values[2] < 1152921504606846976
  requires values[3] < 1152921504606846976
  requires values[4] < 1152921504606846976
  requires values[5] < 1152921504606846976
  requires values[6] < 1152921504606846976
  requires values[7] < 1152921504606846976
  modifies bytes[0..60]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 60) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 60, 60) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 120, 60) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 180, 60) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 240, 60) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 300, 60) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 360, 60) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 420, 60) == values[7]
func unpackBits60
  mode bv
  requires len(values) >= 8 && len(bytes) >= 60
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 60)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 60, 60)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 120, 60)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 180, 60)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 240, 60)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 300, 60)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 360, 60)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 420, 60)
func packBits61
  mode bv
  requires len(values) >= 8 && len(bytes) >= 61
  requires values[0] < 2305843009213693952
  requires values[1] < 2305843009213693952
  requires values[2] < 2305843009213693952
  requires values[3] < 2305843009213693952
  requires values[4] < 2305843009213693952
  requires values[5] < 2305843009213693952
  requires values[6] < 2305843009213693952
  requires values[7] < 2305843009213693952
  modifies bytes[0..61]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 61) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 61, 61) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 122, 61) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 183, 61) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 244, 61) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 305, 61) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 366, 61) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 427, 61) == values[7]
func unpackBits61
  mode bv
  requires len(values) >= 8 && len(bytes) >= 61
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 61)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 61, 61)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 122, 61)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 183, 61)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 244, 61)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 305, 61)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 366, 61)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 427, 61)
func packBits62
  mode bv
  requires len(values) >= 8 && len(bytes) >= 62
  requires values[0] < 4611686018427387904
  requires values[1] < 4611686018427387904
  requires values[2] < 4611686018427387904
  requires values[3] < 4611686018427387904
  requires values[4] < 4611686018427387904
  requires values[5] < 4611686018427387904
  requires values[6] < 4611686018427387904
  requires values[7] < 4611686018427387904
  modifies bytes[0..62]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 62) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 62, 62) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 124, 62) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 186, 62) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 248, 62) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 310, 62) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 372, 62) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 434, 62) == values[7]
func unpackBits62
  mode bv
  requires len(values) >= 8 && len(bytes) >= 62
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 62)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 62, 62)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 124, 62)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 186, 62)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 248, 62)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 310, 62)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 372, 62)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 434, 62)
func packBits63
  mode bv
  requires len(values) >= 8 && len(bytes) >= 63
  requires values[0] < 9223372036854775808
  requires values[1] < 9223372036854775808
  requires values[2] < 9223372036854775808
  requires values[3] < 9223372036854775808
  requires values[4] < 9223372036854775808
  requires values[5] < 9223372036854775808
  requires values[6] < 9223372036854775808
  requires values[7] < 9223372036854775808
  modifies bytes[0..63]
  use rdvDef
  ensures @v0 rdv(arr(bytes), 8*off(bytes) + 0, 63) == values[0]
  ensures @v1 rdv(arr(bytes), 8*off(bytes) + 63, 63) == values[1]
  ensures @v2 rdv(arr(bytes), 8*off(bytes) + 126, 63) == values[2]
  ensures @v3 rdv(arr(bytes), 8*off(bytes) + 189, 63) == values[3]
  ensures @v4 rdv(arr(bytes), 8*off(bytes) + 252, 63) == values[4]
  ensures @v5 rdv(arr(bytes), 8*off(bytes) + 315, 63) == values[5]
  ensures @v6 rdv(arr(bytes), 8*off(bytes) + 378, 63) == values[6]
  ensures @v7 rdv(arr(bytes), 8*off(bytes) + 441, 63) == values[7]
func unpackBits63
  mode bv
  requires len(values) >= 8 && len(bytes) >= 63
  modifies values[0..8]
  use rdvDef
  ensures @v0 values[0] == rdv(arr(bytes), 8*off(bytes) + 0, 63)
  ensures @v1 values[1] == rdv(arr(bytes), 8*off(bytes) + 63, 63)
  ensures @v2 values[2] == rdv(arr(bytes), 8*off(bytes) + 126, 63)
  ensures @v3 values[3] == rdv(arr(bytes), 8*off(bytes) + 189, 63)
  ensures @v4 values[4] == rdv(arr(bytes), 8*off(bytes) + 252, 63)
  ensures @v5 values[5] == rdv(arr(bytes), 8*off(bytes) + 315, 63)
  ensures @v6 values[6] == rdv(arr(bytes), 8*off(bytes) + 378, 63)
  ensures @v7 values[7] == rdv(arr(bytes), 8*off(bytes) + 441, 63)
