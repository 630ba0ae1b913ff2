------------------------------- MODULE MdfBus ---------------------------------
(* Bus logging: message objects with their setters, and which attribute of a   *)
(* message is found in which member channel of the group of its kind.          *)
(* All attribute values are texts (numbers in decimal); payloads are sequences *)
(* of bytes.  A message object is a function from attribute name to value plus *)
(* the payload under "DataBytes".                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- message objects -------------------------------------------------------
CanDlc(n) == IF n <= 8 THEN n ELSE IF n <= 12 THEN 9 ELSE IF n <= 16 THEN 10 ELSE IF n <= 20 THEN 11
             ELSE IF n <= 24 THEN 12 ELSE IF n <= 32 THEN 13 ELSE IF n <= 48 THEN 14 ELSE 15
SetAttr(m, a, v) == [x \in DOMAIN m \cup {a} |-> IF x = a THEN v ELSE m[x]]
SetAttrs(m, r) == [x \in DOMAIN m \cup DOMAIN r |-> IF x \in DOMAIN r THEN r[x] ELSE m[x]]
Num(n) == ToString(n)
Max(a, b) == IF a > b THEN a ELSE b
\* the payload setter also sets the length members of the bus
SetBytes(obj, m, b) ==
  LET m1 == SetAttr(m, "DataBytes", b) IN
  CASE obj = "CAN" -> SetAttrs(m1, [DataLength |-> Num(Len(b)), DLC |-> Num(CanDlc(Len(b)))])
    [] obj = "MOST_AllocTable" -> SetAttr(m1, "TableLength", Num(Len(b)))
    [] obj = "FLX_FrameHeader" -> SetAttr(m1, "FillDataLength", Num(Len(b)))
    [] OTHER -> SetAttr(m1, "DataLength", Num(Len(b)))
\* CAN only: a length setter pads with zeros or cuts
SetLen(m, n) == SetBytes("CAN", m, [i \in 1..n |-> IF i <= Len(m["DataBytes"]) THEN m["DataBytes"][i] ELSE 0])
\* CAN identifiers above 11 bits are extended; bit 31 marks an extended identifier
SetId(m, id, x) == SetAttrs(m, [ID |-> Num(id), IDE |-> IF x \/ id > 2047 THEN "1" ELSE "0"])
\* ---- members of the groups -------------------------------------------------
Can1 == {"BusChannel", "ID", "IDE", "DLC", "DataLength"}
CanF == {"Dir", "SRR", "WakeUp", "SingleWire", "R0", "R1", "FrameDuration", "CRC"}
CanX == {"EDL", "BRS", "ESI"}
LinE == {"SOF", "Baudrate", "BreakLength", "BreakDelimiterLength"}
LinD == {"BusChannel", "ID", "Dir"}
LinB == {"ReceivedDataByteCount", "DataLength", "DataBytes"}
Eth1 == {"BusChannel", "Source", "Destination", "EtherType"}
Most1 == {"BusChannel", "Speed", "TransferType", "Dir", "Source", "Destination", "SpecifiedDataByteCount", "ReceivedDataByteCount", "DataLength", "DataBytes"}
MostA == {"CRC", "CAck", "PAck", "AckNAck"}
Flx1 == {"BusChannel", "ID", "Cycle", "FlxChannel"}
FlxH == {"CRC", "HeaderCRC", "ReservedBitFlag", "PayloadPreambleFlag", "NullFrameFlag", "SyncFrameFlag", "StartUpFrameFlag", "FrameLength"}
FlxD == {"PayloadLength", "DataLength", "DataBytes"}
Members(kind, mand) ==
  CASE kind = "CAN_DataFrame" -> Can1 \cup {"DataBytes"} \cup (IF mand THEN {} ELSE CanF \cup CanX)
    [] kind = "CAN_RemoteFrame" -> Can1 \cup (IF mand THEN {} ELSE CanF)
    [] kind = "CAN_ErrorFrame" -> Can1 \cup CanF \cup CanX \cup {"ErrorType", "BitPosition", "DataBytes"}
    [] kind = "CAN_OverloadFrame" -> {"BusChannel", "Dir"}
    [] kind = "LIN_Frame" -> LinD \cup LinB \cup (IF mand THEN {} ELSE {"Checksum", "ChecksumModel", "ResponseBaudrate"} \cup LinE)
    [] kind = "LIN_ChecksumError" -> LinD \cup (IF mand THEN {} ELSE LinB \cup {"Checksum", "ChecksumModel", "ResponseBaudrate"} \cup LinE)
    [] kind = "LIN_ReceiveError" -> {"BusChannel", "ID", "SpecifiedDataByteCount", "ChecksumModel", "ResponseBaudrate"} \cup LinB \cup LinE
    [] kind = "LIN_SyncError" -> {"BusChannel"} \cup LinE
    [] kind = "LIN_TransmissionError" -> {"BusChannel", "ID"} \cup (IF mand THEN {} ELSE {"SpecifiedDataByteCount", "ChecksumModel"} \cup LinE)
    [] kind = "LIN_WakeUp" -> {"BusChannel", "Baudrate", "SOF"}
    [] kind = "LIN_Spike" -> {"BusChannel", "Baudrate", "SOF"}
    [] kind = "LIN_LongDom" -> {"BusChannel", "Baudrate", "SOF", "Length", "Type"}
    [] kind = "ETH_Frame" -> Eth1 \cup {"ReceivedDataByteCount", "DataLength", "DataBytes"} \cup (IF mand THEN {} ELSE {"CRC", "Dir", "PadByteCount"})
    [] kind = "ETH_ChecksumError" -> Eth1 \cup {"DataLength", "ReceivedCRC", "ExpectedCRC"} \cup (IF mand THEN {} ELSE {"ReceivedDataByteCount", "Dir", "PadByteCount", "DataBytes"})
    [] kind = "ETH_LengthError" -> Eth1 \cup {"ReceivedDataByteCount"} \cup (IF mand THEN {} ELSE {"DataLength", "CRC", "Dir", "PadByteCount", "DataBytes"})
    [] kind = "ETH_ReceiveError" -> Eth1 \cup {"ReceivedDataByteCount"} \cup (IF mand THEN {} ELSE {"DataLength", "CRC", "Dir", "ErrorType", "PadByteCount", "DataBytes"})
    [] kind = "MOST_Message" -> Most1 \cup (IF mand THEN {} ELSE MostA \cup {"TxFailed", "PIndex", "RType"})
    [] kind = "MOST_Packet" -> Most1 \cup (IF mand THEN {} ELSE MostA \cup {"PIndex"})
    [] kind = "MOST_EthernetPacket" -> Most1 \cup (IF mand THEN {} ELSE MostA)
    [] kind = "MOST_SignalState" -> {"BusChannel", "State"}
    [] kind = "MOST_MaxPosInfo" -> {"BusChannel", "DeviceCount"}
    [] kind = "MOST_BoundDesc" -> {"BusChannel", "SBC"}
    [] kind = "MOST_AllocTable" -> {"BusChannel", "FreeByteCount", "TableLayout", "TableLength", "TableData"}
    [] kind = "MOST_SysLockState" -> {"BusChannel", "SysLockState"}
    [] kind = "MOST_ShutdownFlag" -> {"BusChannel", "ShutdownFlag"}
    [] kind = "FLX_Frame" -> Flx1 \cup {"Dir"} \cup FlxD \cup (IF mand THEN {} ELSE FlxH)
    [] kind = "FLX_Pdu" -> Flx1 \cup {"PduLength", "DataLength", "DataBytes"} \cup (IF mand THEN {} ELSE {"IsMultiplexed", "Switch", "ValidFlag", "UpdateBitPos", "PduByteOffset", "PduBitOffset"})
    [] kind = "FLX_FrameHeader" -> Flx1 \cup {"Dir", "PayloadLength"} \cup (IF mand THEN {} ELSE {"FillDataLength", "FillDataBytes"} \cup FlxH)
    [] kind = "FLX_NullFrame" -> Flx1 \cup {"Dir"} \cup (IF mand THEN {} ELSE FlxD \cup FlxH)
    [] kind = "FLX_ErrorFrame" -> Flx1 \cup {"Dir"} \cup (IF mand THEN {} ELSE FlxD \cup FlxH \cup {"IsSyntaxError", "IsContentError", "IsSlotBndViolation", "IsTxConflict", "IsValidFrame"})
    [] kind = "FLX_Symbol" -> {"BusChannel", "Cycle", "FlxChannelMask"} \cup (IF mand THEN {} ELSE {"SymbolLength", "SymbolType"})
    [] OTHER -> {}
Payload == {"DataBytes", "TableData", "FillDataBytes"}
\* ---- what a reader may find ------------------------------------------------
\* a payload stored in place is padded up to its maximum length
Prefix(b, r) == Len(r) >= Len(b) /\ \A i \in DOMAIN b : r[i] = b[i]
InPlace(kind, storage) == kind \in {"LIN_Frame", "LIN_ChecksumError", "LIN_ReceiveError"} \/ (storage = "mlsd" /\ kind \in {"CAN_DataFrame", "CAN_ErrorFrame"})
Shows(kind, mand, storage, m, row) ==
  \A a \in Members(kind, mand) :
    /\ a \in DOMAIN row
    /\ IF a \in Payload THEN IF InPlace(kind, storage) THEN Prefix(m["DataBytes"], row[a]) ELSE row[a] = m["DataBytes"]
       ELSE row[a] = m[a]
\* the message observer rebuilds the message object
Recovers(kind, mand, m, o) ==
  \A a \in Members(kind, mand) : o[a] = m[a]
===============================================================================
