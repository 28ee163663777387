// lexicographically first irreducible pentanomials x^(8n)+x^a+x^b+x^c+1, n=1..255 (computed)
static const unsigned short POLYS[255][3]={{4,3,1},{5,3,1},{4,3,1},{7,3,2},{5,4,3},{5,3,2},{7,4,2},{4,3,1},{10,9,3},{9,4,2},{7,6,2},{10,9,6},{4,3,1},{5,4,3},{4,3,1},{7,2,1},{5,3,2},{7,4,2},{6,3,2},{5,3,2},{15,3,2},{11,3,2},{9,8,7},{7,2,1},{5,3,2},{9,3,1},{7,3,1},{9,8,3},{9,4,2},{8,5,3},{15,14,10},{10,5,2},{9,6,2},{9,3,2},{9,5,2},{11,10,1},{7,3,2},{11,2,1},{9,7,4},{4,3,1},{8,3,1},{7,4,1},{7,2,1},{13,11,6},{5,3,2},{7,3,2},{8,7,5},{12,3,2},{13,10,6},{5,3,2},{5,3,2},{9,5,2},{9,7,2},{13,4,3},{4,3,1},{11,6,4},{18,9,6},{19,18,13},{11,3,2},{15,9,6},{4,3,1},{16,5,2},{15,14,6},{8,5,2},{15,11,2},{11,6,2},{7,5,3},{8,3,1},{19,16,9},{11,9,6},{15,7,6},{13,4,3},{14,13,3},{13,6,3},{9,5,2},{19,13,6},{19,10,3},{11,6,5},{9,2,1},{14,3,2},{13,3,1},{7,5,4},{11,9,8},{11,6,5},{23,16,9},{19,14,6},{23,10,2},{8,3,2},{5,4,3},{9,6,4},{4,3,2},{13,8,6},{13,11,1},{13,10,3},{11,6,5},{19,17,4},{15,14,7},{13,9,6},{9,7,3},{9,7,1},{14,3,2},{11,8,2},{11,6,4},{13,5,2},{11,5,1},{11,4,1},{19,10,3},{21,10,6},{13,3,1},{15,7,5},{19,18,10},{7,5,3},{12,7,2},{7,5,1},{14,9,6},{10,3,2},{15,13,12},{12,11,9},{16,9,7},{12,9,3},{9,5,2},{17,10,6},{24,9,3},{17,15,13},{5,4,3},{19,17,8},{15,6,3},{19,6,1},{21,15,3},{15,10,8},{15,7,2},{11,2,1},{13,11,9},{19,9,8},{15,9,6},{22,21,10},{24,15,6},{21,9,6},{15,8,6},{13,9,6},{7,3,1},{9,4,2},{11,9,7},{15,3,2},{15,11,2},{12,7,2},{11,9,3},{5,3,2},{9,8,7},{15,9,6},{11,10,6},{27,25,9},{12,9,7},{25,10,2},{17,7,5},{15,5,3},{31,30,2},{5,3,2},{16,9,7},{12,7,5},{23,16,6},{15,14,2},{20,17,15},{15,14,2},{12,9,3},{21,11,3},{8,3,2},{15,6,1},{17,14,6},{5,3,2},{15,9,5},{19,18,10},{11,5,1},{17,15,5},{8,3,1},{14,13,6},{10,9,6},{11,6,2},{11,10,6},{14,13,7},{11,3,2},{9,4,2},{12,9,3},{11,4,1},{11,10,2},{9,8,6},{13,11,4},{8,3,2},{10,9,3},{13,10,3},{18,17,7},{21,6,2},{11,7,1},{19,12,2},{8,5,2},{21,10,7},{20,9,2},{21,19,13},{12,7,5},{14,11,1},{15,13,1},{13,4,3},{13,11,5},{17,15,3},{7,5,1},{18,13,1},{19,15,10},{17,9,6},{5,4,3},{11,6,2},{15,8,6},{15,6,3},{14,11,3},{15,12,5},{17,14,10},{11,10,5},{19,14,6},{19,18,2},{6,3,2},{8,3,2},{25,6,5},{10,9,3},{23,21,6},{17,14,3},{22,5,2},{19,16,9},{23,18,1},{7,5,1},{18,13,7},{21,10,2},{16,13,3},{11,9,4},{11,9,1},{10,5,2},{15,4,2},{17,13,2},{26,11,2},{12,11,1},{20,15,10},{11,3,2},{17,16,7},{15,10,1},{27,22,18},{15,14,6},{17,15,2},{25,19,14},{25,19,17},{13,11,5},{6,3,2},{13,10,6},{26,23,13},{21,15,7},{40,35,9},{7,6,2},{7,2,1}};
