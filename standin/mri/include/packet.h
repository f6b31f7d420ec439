/* Stand-in for mri/include/packet.h. */
#ifndef _PACKET_H_
#define _PACKET_H_
#include <buffer.h>
typedef struct
{
    Buffer*       pBuffer;
    char          lastChar;
    unsigned char calculatedChecksum;
    unsigned char expectedChecksum;
} Packet;
#define Packet_GetFromGDB                            __mriPacket_GetFromGDB
#define Packet_SendToGDB                             __mriPacket_SendToGDB
void Packet_GetFromGDB(Packet* pPacket, Buffer* pBuffer);
void Packet_SendToGDB(Packet* pPacket, Buffer* pBuffer);
#endif
