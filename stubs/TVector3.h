#pragma once
class TVector3;
