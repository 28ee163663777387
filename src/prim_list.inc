/* every fixed rotation */
R8(1,1)
R8(2,2)
R8(3,3)
R8(4,4)
R8(5,5)
R8(6,6)
R8(7,7)
R16(01,1)
R16(02,2)
R16(03,3)
R16(04,4)
R16(05,5)
R16(06,6)
R16(07,7)
R16(08,8)
R16(09,9)
R16(10,10)
R16(11,11)
R16(12,12)
R16(13,13)
R16(14,14)
R16(15,15)
R32(01,1)
R32(02,2)
R32(03,3)
R32(04,4)
R32(05,5)
R32(06,6)
R32(07,7)
R32(08,8)
R32(09,9)
R32(10,10)
R32(11,11)
R32(12,12)
R32(13,13)
R32(14,14)
R32(15,15)
R32(16,16)
R32(17,17)
R32(18,18)
R32(19,19)
R32(20,20)
R32(21,21)
R32(22,22)
R32(23,23)
R32(24,24)
R32(25,25)
R32(26,26)
R32(27,27)
R32(28,28)
R32(29,29)
R32(30,30)
R32(31,31)
R64(01,1)
R64(02,2)
R64(03,3)
R64(04,4)
R64(05,5)
R64(06,6)
R64(07,7)
R64(08,8)
R64(09,9)
R64(10,10)
R64(11,11)
R64(12,12)
R64(13,13)
R64(14,14)
R64(15,15)
R64(16,16)
R64(17,17)
R64(18,18)
R64(19,19)
R64(20,20)
R64(21,21)
R64(22,22)
R64(23,23)
R64(24,24)
R64(25,25)
R64(26,26)
R64(27,27)
R64(28,28)
R64(29,29)
R64(30,30)
R64(31,31)
R64(32,32)
R64(33,33)
R64(34,34)
R64(35,35)
R64(36,36)
R64(37,37)
R64(38,38)
R64(39,39)
R64(40,40)
R64(41,41)
R64(42,42)
R64(43,43)
R64(44,44)
R64(45,45)
R64(46,46)
R64(47,47)
R64(48,48)
R64(49,49)
R64(50,50)
R64(51,51)
R64(52,52)
R64(53,53)
R64(54,54)
R64(55,55)
R64(56,56)
R64(57,57)
R64(58,58)
R64(59,59)
R64(60,60)
R64(61,61)
R64(62,62)
R64(63,63)
